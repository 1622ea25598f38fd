"""C01-C04, C06, C08, C22: edge histories, window queries, selections, extents."""
from hypothesis import strategies as st

from ..core import register
from ..drive import INCL, Driver, check, edge_data, extent_of, same, same_set, as_counter
from ..gen import ends, event_ticks, few_or_many, history, incl, window, window_near, wide
from .many import many_subs


def fam_dir(fam):
    return [(fam, False), (fam, True)]


def rep(case):
    """True for the history steps after which everything is compared"""
    return len(case["ops"])


# ---------------------------------------------------------------- C01 / C02
def edge_history(fam, directed):
    def run(case, obs):
        d = Driver(fam, directed, case)
        n = len(case["ops"])

        def each(i):
            w = "after step %d (%s): " % (i, case["ops"][i][0])
            if n <= 6 or i == n - 1 or i % 3 == 0 or not case.get("every", True):
                d.check_edges(w)
                d.check_nodes(w)
                if i == n - 1 or case["ops"][i][0] in ("exact", "readd"):
                    d.check_exact(w)
            else:
                d.check_index(w)
        d.run_comparing(case, each)
        s = d.stats
        obs.nt(s["removed"] > 0 or s["readd"] > 0)
        if s["removed"]:
            obs.hit("removal")
        if s["readd"]:
            obs.hit("re-add")
        if s["removed"] >= 5:
            obs.hit(">=5 removals")
        if len(d.m.edges) >= 30:
            obs.hit(">=30 edges left")
        if any(e[0] == e[1] for e in d.m.edges):
            obs.hit("self-loop")
        if any(e[2] == 0 for e in d.m.edges):
            obs.hit("time 0")
    return run


def hist_subs(fam, q):
    from ..core import Sub
    subs = []
    for f, dr in fam_dir(fam):
        n = {False: "undirected", True: "directed"}[dr]
        subs.append(Sub("history-" + n, history(max_ops=14), edge_history(f, dr), q))
        subs.append(Sub("bulk-" + n, history(max_ops=6, bulk=90, k=few_or_many), edge_history(f, dr), q // 5))
    return subs


register("C01", "Histories of 1-14 operations (add, bulk add of up to 90 edges, re-add, remove by pair / window / exact "
         "interval / node) on IntervalGraph and IntervalDiGraph, compared with a dict of edges after the steps; "
         "plus 1200-4000 edges added and partly removed in seven orders; non-trivial: at least one edge was removed or re-added (1000 added in the last kind).", hist_subs("I", 1600) + many_subs("I", 12, 0))
register("C02", "Histories of 1-14 operations (add, bulk add of up to 90 edges, re-add, remove by pair / window and "
         "inclusive flag / node) on ImpulseGraph and ImpulseDiGraph, compared with a dict of edges after the steps; "
         "plus 1200-4000 edges added and partly removed in seven orders; non-trivial: at least one edge was removed or re-added (1000 added in the last kind).", hist_subs("P", 1600) + many_subs("P", 0, 6))


# ---------------------------------------------------------------- C03 / C04
@st.composite
def with_windows(draw, hist, n=6, inclusive=False):
    case = draw(hist)
    ev = event_ticks(case)
    ws = draw(st.lists(st.tuples(window(), incl if inclusive else st.none()).map(list), min_size=1, max_size=n))
    if ev:
        # windows whose bounds sit on events
        idx = st.integers(0, len(ev) - 1)
        for i, j, k in draw(st.lists(st.tuples(idx, idx, incl if inclusive else st.none()), max_size=n)):
            a, b = sorted((ev[i], ev[j]))
            ws.append([[a, b], k])
    case["windows"] = ws
    return case


def window_check(fam, directed):
    def run(case, obs):
        d = Driver(fam, directed, case)
        d.run_asking(case, lambda: window_queries(d, case["windows"], obs))
        if len(d.m.edges) >= 30:
            obs.hit(">=30 edges")
    return run


def window_queries(d, windows, obs):
    g, m, T, directed = d.g, d.m, d.T, d.directed
    pairs = sorted({(e[0], e[1]) for e in m.edges}, key=repr)
    some = pairs[:4] + [(v, u) for u, v in pairs[:2]]
    for (b, e), i in windows:
        b, e = T(b), T(e)
        kw = d.kw(i)
        inc = d.inc(i)
        w = "window [%r, %r) %s: " % (b, e, kw)
        want = m.window(b, e, inc)
        same_set(g.edges(begin=b, end=e, **kw), want, w + "edges")
        nodes = m.win_nodes(b, e, inc)
        same_set(g.nodes(begin=b, end=e, **kw), nodes, w + "nodes")
        same({n: dict(a) for n, a in g.nodes(begin=b, end=e, data=True, **kw)}, {n: m.nodes[n] for n in nodes},
             w + "nodes(data=True)")
        same(dict(g.nodes(begin=b, end=e, data="w", default=-7, **kw)), {n: m.nodes[n].get("w", -7) for n in nodes},
             w + "nodes(data='w', default=-7)")
        same(g.number_of_nodes(begin=b, end=e, **kw), len(nodes), w + "number_of_nodes")
        for n in d.labels:
            same(bool(g.has_node(n, begin=b, end=e, **kw)), n in nodes, w + "has_node(%r)" % (n,))
        # has_edge of a directed impulse graph has both ends inclusive by default
        hinc = d.inc(i, (True, True) if directed else (True, False))
        for u, v in some:
            same(bool(g.has_edge(u, v, begin=b, end=e, **kw)), any(m.joins(x, u, v) for x in m.window(b, e, hinc)),
                 w + "has_edge(%r, %r)" % (u, v))
        # the same window through the adjacency of a node
        for n in d.labels[:3]:
            if d.queryable(n):
                same_set(g.edges(u=n, begin=b, end=e, **kw), m.select([n], None, b, e, inc), w + "edges(u=%r)" % (n,))
        if 0 < len(want) < len(m.edges):
            obs.nt()
            obs.hit("proper subset")
        ev = {t for x in m.edges for t in x[2:]}
        if b in ev or e in ev:
            obs.hit("bound on an event")
        if b == 0 or e == 0:
            obs.hit("bound 0")
        if b is None or e is None:
            obs.hit("open side")
        if b == e and b is not None:
            obs.hit("point window")


def win_subs(fam, q):
    from ..core import Sub
    subs = []
    for f, dr in fam_dir(fam):
        n = {False: "undirected", True: "directed"}[dr]
        inc = fam == "P"
        subs.append(Sub("windows-" + n, with_windows(history(max_ops=12, min_ops=3), inclusive=inc), window_check(f, dr), q))
        subs.append(Sub("windows-large-" + n, with_windows(history(max_ops=5, bulk=150, k=few_or_many), inclusive=inc), window_check(f, dr), q // 5))
        subs.append(Sub("windows-wide-" + n, with_windows(wide(), inclusive=inc), window_check(f, dr), 8))
    return subs


register("C03", "Interval graphs built by histories (with removals, up to ~150 edges) queried with generated windows and windows "
         "whose bounds sit on events; edges, nodes (with data), number_of_nodes, has_node and has_edge compared with a "
         "scan of the model; non-trivial: some window selects a proper non-empty subset of the edges.", win_subs("I", 2000))
register("C04", "Impulse graphs built by histories (with removals, up to ~150 edges) queried with generated windows, windows "
         "whose bounds sit on timestamps, and every inclusive flag; edges, nodes (with data), number_of_nodes, has_node and "
         "has_edge compared with a scan of the model; non-trivial: some window selects a proper non-empty subset.", win_subs("P", 2000))


# ---------------------------------------------------------------- C06
def of_pair(pair, how, lists, more):
    u, v = pair if how != "vu" else pair[::-1]
    if lists:
        u, v = [u] + more, more + [v]
    return (u if how != "v" else None, v if how != "u" else None)


@st.composite
def with_selections(draw, hist, inclusive):
    case = draw(hist)
    k = len(case["labels"])
    one = st.integers(0, k - 1)
    spec = st.one_of(st.none(), one, one, st.lists(one, max_size=4))
    pairs = ends(case) or [(0, 1)]
    # both ends of some edge, or one of them
    pick = st.tuples(st.integers(0, len(pairs) - 1), st.sampled_from(["uv", "uv", "vu", "u", "v"]), st.booleans(), st.lists(one, max_size=2)).map(
        lambda x: of_pair(pairs[x[0]], *x[1:]))
    qs = draw(st.lists(st.tuples(st.one_of(st.tuples(spec, spec), pick, pick), st.one_of(st.just([None, None]), window_near(case)),
                                 incl if inclusive else st.none(),
                                 st.sampled_from([False, False, True, "w", "c", "nope"]),
                                 st.sampled_from(["absent", None, 0, "dflt"]),
                                 st.sampled_from(["list", "tuple", "set"])).map(lambda x: list(x[0]) + list(x[1:])), min_size=1, max_size=6))
    case["queries"] = qs
    return case


def decorate(es, m, data, default):
    if data is False:
        return {e: 0 for e in es}
    if data is True:
        return {e: m.edges[e] for e in es}
    return {e: m.edges[e].get(data, default) for e in es}


def selection_queries(d, queries, obs):
    """edges() with node constraints, windows and data, against the model"""
    g, m, T, L = d.g, d.m, d.T, d.labels
    for u, v, (b, e), i, data, default, kind in queries:
        b, e = T(b), T(e)
        lists = []
        args = {}
        ok = True
        for name, s in (("u", u), ("v", v)):
            if s is None:
                lists.append(None)
            elif isinstance(s, int):
                lists.append([L[s]])
                args[name] = L[s]
                ok = ok and d.queryable(L[s])
            else:
                xs = [L[j] for j in s]
                lists.append(xs)
                # a tuple that is itself a node names that node: pass such collections as lists
                con = {"list": list, "tuple": tuple, "set": set}[kind]
                arg = con(xs)
                if isinstance(arg, tuple) and arg in m.nodes:
                    arg = list(arg)
                args[name] = arg
                obs.hit("node collection")
        if not ok:
            continue
        kw = d.kw(i)
        inc = d.inc(i)
        want = m.select(lists[0], lists[1], b, e, inc)
        extra = {} if default == "absent" else {"default": default}
        dflt = None if default == "absent" else default
        w = "edges(%s, begin=%r, end=%r, data=%r %s %s)" % (args, b, e, data, extra, kw)
        got = g.edges(begin=b, end=e, data=data, **args, **extra, **kw)
        check(isinstance(got, list), "%s: expected a list, got %s", w, type(got).__name__)
        if data is False:
            same_set(got, want, w)
        else:
            out = {}
            for p in got:
                check(isinstance(p, tuple) and len(p) == 2, "%s: malformed element %r", w, p)
                x, a = p
                check(x not in out, "%s: edge %r repeated", w, x)
                out[x] = a
            same(out, decorate(want, m, data, dflt), w)
            obs.hit("with data")
        # positional form
        if "v" not in args and "u" in args and i is None and data is False:
            same_set(g.edges(args["u"], None, b, e), want, w + " positional")
        if want and len(want) < len(m.edges):
            obs.nt()
        if lists[0] is not None and lists[1] is not None:
            obs.hit("u and v")
        if b is not None or e is not None:
            obs.hit("window")
        if any(isinstance(x, (str, tuple)) for l in lists if l for x in l):
            obs.hit("str/tuple node")
        if any(x not in m.nodes for l in lists if l for x in l):
            obs.hit("unknown node")


def select_check(fam, directed):
    def run(case, obs):
        d = Driver(fam, directed, case)
        d.run_asking(case, lambda: selection_queries(d, case["queries"], obs))
    return run


def sel_subs(q):
    from ..core import Sub
    subs = []
    for fam in "IP":
        for f, dr in fam_dir(fam):
            n = ("interval-" if fam == "I" else "impulse-") + {False: "undirected", True: "directed"}[dr]
            subs.append(Sub(n, with_selections(history(max_ops=11, min_ops=3), fam == "P"), select_check(f, dr), q))
            subs.append(Sub(n + "-large", with_selections(history(max_ops=4, bulk=60, k=few_or_many), fam == "P"), select_check(f, dr), q // 6))
            subs.append(Sub(n + "-wide", with_selections(wide(), fam == "P"), select_check(f, dr), 20))
    return subs


register("C06", "Graphs of all four classes built by histories, queried with u / v absent, single or collections (list, tuple, "
         "set) over all label kinds, windows, inclusive flags, data and default; compared with a scan of the model; "
         "non-trivial: some query selects a proper non-empty subset of the edges.", sel_subs(1300))


# ---------------------------------------------------------------- C08
@st.composite
def with_bounds(draw, hist):
    case = draw(hist)
    case["bounds"] = draw(st.lists(st.tuples(window(), st.sampled_from([None, 0, 1, 2, 3])).map(list), min_size=1, max_size=5))
    return case


def extent_check(fam, directed):
    def run(case, obs):
        d = Driver(fam, directed, case)
        g, m, T = d.g, d.m, d.T
        seen = {"shrunk": False}
        last = [None]

        def unique(which):
            if which == "begin":
                return {e[2] for e in m.edges}
            if which == "end":
                return {e[3] for e in m.edges}
            return {t for e in m.edges for t in e[2:]}

        def each(i):
            w = "after step %d (%s): " % (i, case["ops"][i][0])
            x = m.extent()
            same(extent_of(g), x, w + "interval()")
            if last[0] is not None and (x is None or x[0] > last[0][0] or x[1] < last[0][1]):
                seen["shrunk"] = True
            last[0] = x
            if fam == "I":
                same(list(g.unique_timestamps()), sorted(unique("all")), w + "unique_timestamps()")
                same(list(g.unique_begin_timestamps()), sorted(unique("begin")), w + "unique_begin_timestamps()")
                same(list(g.unique_end_timestamps()), sorted(unique("end")), w + "unique_end_timestamps()")
        def bounded(i):
            if fam == "P":
                return
            for (b, e), i in case["bounds"]:
                b, e = T(b), T(e)
                inc = (True, True) if i is None else INCL[i]
                # a missing bound means the graph's own extent: only its inclusive form is unambiguous
                inc = (True if b is None else inc[0], True if e is None else inc[1])
                kw = {} if i is None else {"inclusive": inc}
                for which, f in (("all", g.unique_timestamps), ("begin", g.unique_begin_timestamps), ("end", g.unique_end_timestamps)):
                    want = [t for t in sorted(unique(which))
                            if (b is None or (b <= t if inc[0] else b < t)) and (e is None or (t <= e if inc[1] else t < e))]
                    same(list(f(begin=b, end=e, **kw)), want, "unique %s timestamps in %r..%r %s" % (which, b, e, kw))
                    if 0 < len(want) < len(unique(which)):
                        obs.hit("proper subset of times")

        def step(i):
            each(i)
            if i in case.get("stops", ()) or i == len(case["ops"]) - 1:
                bounded(i)
        if case["ops"]:
            if -1 in case.get("stops", ()):
                same(extent_of(g), None, "empty graph: interval()")
                bounded(-1)
            d.run_comparing(case, step)
        else:
            same(extent_of(g), None, "empty graph: interval()")
            bounded(-1)
        if seen["shrunk"]:
            obs.hit("extent shrank")
        if not m.edges and d.stats["removed"]:
            obs.hit("emptied")
        if len(m.edges) > 30:
            obs.hit(">30 edges")
        obs.nt(seen["shrunk"] or len(m.edges) >= 3)
    return run


def ext_subs(q):
    from ..core import Sub
    subs = []
    for fam in "IP":
        for f, dr in fam_dir(fam):
            n = ("interval-" if fam == "I" else "impulse-") + {False: "undirected", True: "directed"}[dr]
            subs.append(Sub(n, with_bounds(history(max_ops=14, min_ops=0)), extent_check(f, dr), q))
            subs.append(Sub(n + "-large", with_bounds(history(max_ops=6, bulk=80, k=few_or_many)), extent_check(f, dr), q // 5))
    return subs


register("C08", "Histories with removals on all four classes; after every step the extent (and for interval graphs the unique "
         "begin/end timestamps) is compared with the model, then bounded timestamp queries; non-trivial: the extent shrank "
         "by a removal, or at least 3 edges remain (plus graphs of 1200-4000 edges).", ext_subs(1500) + many_subs("IP", 8, 3))

"""C15, C16: text round trip and loading options. C18: conversions."""
import os
import shutil
import tempfile
from collections import Counter

import dynetworkx as dnx
import networkx as nx
from hypothesis import strategies as st

from ..core import Sub, Violation, register
from ..drive import FAR, CLASSES, Driver, check, edge_data, frz, same, same_set, short
from ..gen import Fresh, node_count, LABELS, history, wide, label, label_names, mktime, times
from ..model import TModel, near
from .nodes import CLS
from .snaps import KINDS

TEXT_LABELS = {
    "int": (list(range(20)), "int"),
    "ints": ([7, 0, -1, 12, 30, -20, 100, 5, 11, 13, -2, 1, 99, 41, 10 ** 12, 2, 6, 4, 55, 8], "int"),
    "words": (["a", "b", "node_1", "Ab", "x.y", "u", "v", "begin"] + ["n%d" % i for i in range(12)], "str"),
    "digits": (["1", "01", "2", "3x", "-4", "10", "0", "00", "11", "12", "1e3", "100", "20", "21", "007", "7", "8", "9", "1_0", "5"], "str"),
    "floats": ([0.5, 1.0, -2.25, 3.125, 10.0, 0.1, 7.5, 1e-3, 1e20, 2.0, 3.0, 4.0, 5.0, 6.0, 1e-20, 8.0, 9.0, 0.2, 0.3, -1e300], "float"),
    "mixed": ([1, "a", 2, "b", 0, "zz", -7, "c", 10, "d", 11, "e", 12, "f", 100, "g", 3, "h", 4, "i"], "int"),
    # strings which read as numbers, but not as integers
    "numeric": ([1, "1.0", 2, "1.5", "1e3", "nan", "inf", "0x1", "2.", "-inf", "1/2", "1-2", "1e-3", 15, 1000, "0b1", "1,5".replace(",", "'"), "3j", "--1", "1.5.1"], "int"),
}
TYPES = {"int": int, "str": str, "float": float}
TEXT_ATTRS = [{}, {}, {"w": 1}, {"w": 2.5}, {"w": 0}, {"c": "red"}, {"c": "red", "w": -3}, {"weight": 1e-3, "kind": "x_y"}, {"c": ""}, {"w": 0.1},
              {"c": "a=b", "w": 2}, {"url": "x?y=1&z==2", "kind": "="}]
DELIMS = [" ", " ", ",", "\t", ";", "|", "||", "::", "->", "*", "$", ".|"]


def scratch():
    return tempfile.mkdtemp(prefix="dnxpbt")


def orient(directed, e):
    if directed or e[0] == e[1]:
        return e
    return tuple(sorted(e[:2], key=lambda x: (str(type(x)), repr(x)))) + e[2:]


def text_safe(op):
    """attributes of a generated operation replaced by text-representable ones"""
    return op


@st.composite
def wide_text(draw):
    case = draw(wide(plain=True))
    return dict(case, nodetype="int", delimiter=draw(st.sampled_from(DELIMS)), omit=draw(st.booleans()), timetype=None)


@st.composite
def text_history(draw, fam, removal=True, bulk=0):
    case = draw(history(max_ops=10 if not bulk else 4, min_ops=1, removal=removal, attr=False, time=times, bulk=bulk))
    k = len(case["labels"])
    name = draw(st.sampled_from(sorted(TEXT_LABELS)))
    labels, nt = TEXT_LABELS[name]
    case["labels"], case["nodetype"] = labels[:k], nt
    n = sum(1 for op in case["ops"] if op[0] in ("edge", "edges"))
    at = draw(st.lists(st.sampled_from(TEXT_ATTRS), min_size=n, max_size=n))
    for op in case["ops"]:
        if op[0] in ("edge", "edges"):
            op[-1] = at.pop()
    case["delimiter"] = draw(st.sampled_from(DELIMS))
    case["omit"] = draw(st.booleans())
    case["timetype"] = draw(st.sampled_from([None, None, "float", "int"]))
    return case


def graph_edges(g, what):
    return edge_data(g.edges(data=True), what)


def compare_loaded(got, cls, m, what, oriented=True):
    check(type(got) is cls, "%s: got a %s, expected a %s", what, type(got).__name__, cls.__name__)
    e = graph_edges(got, what)
    want = m.edges
    if not oriented:
        e = {orient(m.directed, k): a for k, a in e.items()}
        want = {orient(m.directed, k): a for k, a in want.items()}
    if set(e) != set(want):
        raise Violation("%s: edges missing %s, extra %s" % (what, short(sorted(set(want) - set(e), key=repr)), short(sorted(set(e) - set(want), key=repr))))
    for k in want:
        same(e[k], want[k], "%s: attributes of %r" % (what, k))
        for x in k[:2]:
            check(any(type(x) is type(n) and n == x for n in m.nodes), "%s: node %r has the wrong type", what, x)
    # the other views of the loaded graph agree
    same_set(got.edges(begin=-FAR, end=FAR), list(graph_edges(got, what)), what + ": edges by time")


# ---------------------------------------------------------------- C15
def roundtrip(fam, directed):
    def run(case, obs):
        d = Driver(fam, directed, case)
        d.run(case["ops"])
        g, m, cls = d.g, d.m, d.cls
        dl = case["delimiter"]
        kw = {} if dl == " " and case["omit"] else {"delimiter": dl}
        lkw = dict(kw)
        nt = case["nodetype"]
        if nt != "int" or not case["omit"]:
            lkw["nodetype"] = TYPES[nt]
        tt = case["timetype"]
        integral = all(float(t).is_integer() and "." not in str(t) for e in m.edges for t in e[2:])
        if tt == "int" and not integral:
            tt = None
        if tt:
            lkw["intervaltype" if fam == "I" else "timestamptype"] = TYPES[tt]
        tmp = scratch()
        try:
            path = os.path.join(tmp, "g.txt")
            for f, why in ((lambda: g.save_to_txt(path, delimiter="="), "saving with delimiter '='"),
                           (lambda: cls().save_to_txt(path), "saving an empty graph")):
                try:
                    f()
                except ValueError:
                    pass
                else:
                    raise Violation(why + " was accepted")
            check(not os.path.exists(path), "a refused save wrote the file")
            if not len(g):
                return
            g.save_to_txt(path, **kw)
            try:
                cls.load_from_txt(path, delimiter="=")
            except ValueError:
                pass
            else:
                raise Violation("loading with delimiter '=' was accepted")
            got = cls.load_from_txt(path, **lkw)
            what = "round trip (%s)" % lkw
            compare_loaded(got, cls, m, what)
            # and once more from the loaded graph
            if m.edges:
                got.save_to_txt(path, **kw)
                compare_loaded(cls.load_from_txt(path, **lkw), cls, m, "second " + what)
            if tt == "int":
                check(all(type(t) is int for e in got.edges() for t in e[2:]), "%s: times are not of the requested type", what)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        obs.hit("delimiter " + repr(dl), "nodes " + nt)
        if any(m.edges.values()):
            obs.hit("attributes")
        if not integral:
            obs.hit("fractional or float times")
        obs.nt(len(m.edges) >= 2)
    return run


register("C15", "Graphs of all four classes built by histories with text-representable nodes (ints, strings, floats, mixed), times and attributes, "
         "saved and loaded with generated delimiters and types; class, edges, endpoint order, times and attributes compared with the model; "
         "refused saves; non-trivial: at least two edges.",
         [Sub(n, text_history(f), roundtrip(f, dr), 1200) for f, dr, n in CLS] +
         [Sub(n + "-large", text_history(f, bulk=200), roundtrip(f, dr), 50) for f, dr, n in CLS] +
         [Sub(n + "-wide", wide_text(), roundtrip(f, dr), 12) for f, dr, n in CLS])


# ---------------------------------------------------------------- C16
@st.composite
def file_case(draw, fam):
    k = draw(node_count)
    name = draw(st.sampled_from(sorted(TEXT_LABELS)))
    labels, nt = TEXT_LABELS[name]
    node = st.integers(0, k - 1)
    tick = st.integers(-3, 12)
    rec = st.tuples(node, node, tick, st.sampled_from([1, 1, 2, 3, 5, 0]), st.sampled_from(TEXT_ATTRS),
                    st.sampled_from(["", "", "", " ", "\t", "CMT", " CMT", " CMT x=1 2 3", "CMT y CMT z=1"]))
    recs = draw(st.lists(rec.map(list), min_size=1, max_size=8))
    case = {"labels": labels[:k], "nodetype": nt, "records": recs,
            "time": draw(times), "delimiter": draw(st.sampled_from(DELIMS)),
            "comments": draw(st.sampled_from(["#", "#", "@", "%%"])),
            "noise": draw(st.lists(st.tuples(st.integers(0, 9), st.integers(0, 5)).map(list), max_size=4)),
            "final_newline": draw(st.booleans()),
            "predict": draw(st.sampled_from([False, False, False, False, True]))}
    if fam == "I":
        mode = draw(st.sampled_from(["full", "full", "begin", "end", "merge", "merge"]))
        cols = ["u", "v", "begin", "end"] if mode in ("full", "merge") else ["u", "v", mode]
        case["mode"], case["duration"] = mode, draw(st.sampled_from([1, 2, 5, 2.5]))
        if mode == "merge":
            case["time"] = draw(st.sampled_from([[0, 1], [-4, 1], [-9, 1], [100, 1], [0, 2]]))
            case["gap"] = draw(st.sampled_from([0, 0, 1, 2, 3]))
            case["records"] = [[u, v, t, max(1, n), [a for a in ({}, {"w": 1}, {"c": "red"})][len(a) % 3], c] for u, v, t, n, a, c in recs]
    else:
        case["mode"] = "impulse"
        cols = ["u", "v", "t"]
    case["order"] = draw(st.permutations(cols)) if draw(st.booleans()) else cols
    case["bad"] = draw(st.sampled_from([None, None, None, "order", "time", "node", "short order"]))
    return case


NOISE = ["\n", "   \n", "%s comment\n", "  %s comment 1 2 3 4\n", "\t\n", "%s\n"]


def merge_into(m, u, v, b, e, attrs, gap, obs):
    """reference merge; None when the result would coincide with an edge of other attributes"""
    b0, e0 = b, e
    hit = [x for x in m.edges if m.joins(x, u, v) and m.edges[x] == attrs and x[2] <= e0 + gap and x[3] >= b0 - gap]
    if [x for x in hit if (x[2], x[3]) != (b0, e0)]:
        obs.hit("merged")
    if len(hit) > 1:
        obs.hit("merged several")
    if any(m.joins(x, u, v) and m.edges[x] != attrs for x in m.edges):
        obs.hit("other attributes on the pair")
    for x in hit:
        b, e = min(b, x[2]), max(e, x[3])
        del m.edges[x]
    for o in ((u, v, b, e), (v, u, b, e)):
        if o in m.edges and (not m.directed or o[0] == u):
            return False
    m.add_edge((u, v, b, e), attrs)
    return True


def loading(fam, directed):
    cls = getattr(dnx, CLASSES[fam, directed])

    def run(case, obs):
        L, T = case["labels"], mktime(case["time"])
        m = TModel(fam == "I", directed)
        cm, dl, mode = case["comments"], case["delimiter"], case["mode"]
        dur = case.get("duration")
        lines = []
        for u, v, t, n, attrs, tail in case["records"]:
            u, v, b, e = L[u], L[v], T(t), T(t + n)
            if mode == "begin":
                e = float(b) + dur
            elif mode == "end":
                b = float(e) - dur
            edge = (u, v, float(b), float(e)) if fam == "I" else (u, v, float(b))
            if mode == "merge":
                if not directed and u != v and (v, u) + edge[2:] in m.edges and m.edges[(v, u) + edge[2:]] != attrs:
                    continue
                snap = m.copy()
                if not merge_into(m, u, v, edge[2], edge[3], attrs, case["gap"], obs):
                    m = snap
                    continue
            else:
                if m.twin(edge):
                    continue
                m.add_edge(edge, attrs)
            val = {"u": u, "v": v, "begin": b, "end": e, "t": b}
            line = dl.join([str(val[c]) for c in case["order"]] + ["%s=%s" % (k, x) for k, x in attrs.items()])
            lines.append(line + tail.replace("CMT", cm + "note") + "\n")
        for pos, kind in case["noise"]:
            t = NOISE[kind]
            lines.insert(min(pos, len(lines)), t % cm if "%s" in t else t)
        text = "".join(lines)
        if not case["final_newline"]:
            text = text.rstrip("\n")
        kw = {"delimiter": dl, "nodetype": TYPES[case["nodetype"]]}
        if cm != "#":
            kw["comments"] = cm
        order = tuple(case["order"]) + ((dur,) if mode in ("begin", "end") else ())
        if order not in (("u", "v", "begin", "end"), ("u", "v", "t")):
            kw["order"] = order
            obs.hit("column order")
        if mode == "merge":
            kw["merge"] = (True, case["gap"])
        if case.get("predict") and m.edges:
            # trains the query model on the loaded graph, which must not show
            kw["predict"] = True
            obs.hit("with a predictive model")
        tmp = scratch()
        try:
            path = os.path.join(tmp, "g.txt")
            with open(path, "w") as f:
                f.write(text)
            got = cls.load_from_txt(path, **kw)
            what = "load_from_txt(%s) of %r" % (kw, text)
            compare_loaded(got, cls, m, what, oriented=(mode != "merge"))
            bad = case["bad"]
            if bad:
                bkw = dict(kw)
                bkw.pop("predict", None)
                ok = True
                if bad == "order":
                    bkw["order"] = ("u", "w", "begin", "end") if fam == "I" else ("u", "x", "t")
                elif bad == "short order":
                    bkw["order"] = ("u", "v", "begin") if fam == "I" else ("u", "v")
                elif bad == "time":
                    val = {"u": L[0], "v": L[1], "begin": "x1", "end": "x2", "t": "x3"}
                    text += ("" if text.endswith("\n") or not text else "\n") + dl.join(str(val[c]) for c in case["order"]) + "\n"
                else:
                    val = {"u": "zebra", "v": "lion", "begin": 1, "end": 2, "t": 1}
                    bkw["nodetype"] = float
                    text = dl.join(str(val[c]) for c in case["order"]) + "\n"
                with open(path, "w") as f:
                    f.write(text)
                try:
                    cls.load_from_txt(path, **bkw)
                except (ValueError, TypeError):
                    obs.hit("rejected " + bad)
                else:
                    raise Violation("load_from_txt(%s) of %r was accepted" % (bkw, text))
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        obs.hit(mode)
        if case["noise"] or any(r[5] for r in case["records"]):
            obs.hit("comments or blank lines")
        obs.nt(len(m.edges) >= 2 and (bool(case["noise"]) or "order" in kw or mode == "merge" or any(r[4] for r in case["records"])))
    return run


register("C16", "Files rendered from 1-8 generated records with every column order, durations, delimiters, comment markers, blank and comment-only "
         "lines, node and time types, and merging with gaps 0-3, loaded by each class; edges and attributes compared with the records "
         "(and a reference merge), malformed orders and values must be refused; non-trivial: at least two edges and some noise, order, attribute or merge.",
         [Sub(n, file_case(f), loading(f, dr), 1300) for f, dr, n in CLS])


# ---------------------------------------------------------------- C18
TNAMES = {"I": [["begin", "end"], ["begin", "end"], ["start", "stop"], ["a", "b"], ["end", "begin"]], "P": [["timestamp"], ["timestamp"], ["t"], ["begin"], ["when"]]}
XATTRS = [{}, {}, {"w": 1}, {"c": "r", "w": 0}, {"begin2": 3}, {"w": None}, {"timestamps": 4, "end_": "x"}]
# names which mean something elsewhere in the library, but not for the class
XATTRS = {"I": XATTRS + [{"timestamp": "noon"}, {"t": 4, "interval": "x"}, {"weight": 2, "key": 5}],
          "P": XATTRS + [{"begin": "noon"}, {"end": 4, "interval": "x"}, {"timestamp": "noon", "time": 3}, {"weight": 2, "key": 5}]}


@st.composite
def nx_case(draw, fam):
    k = draw(node_count)
    node = st.integers(0, k - 1)
    edge = st.tuples(node, node, st.integers(-3, 9), st.sampled_from([0, 1, 2, 5]), st.sampled_from(XATTRS[fam])).map(list)
    return {"labels": LABELS[draw(label_names)][:k], "time": draw(times), "kind": draw(st.integers(0, 3)),
            "edges": draw(st.lists(edge, min_size=1, max_size=8)), "names": draw(st.sampled_from(TNAMES[fam])),
            "explicit": draw(st.booleans()), "isolated": draw(st.lists(node, max_size=2))}


def from_nx(fam, directed):
    cls = getattr(dnx, CLASSES[fam, directed])

    def run(case, obs):
        L, T = Fresh(label(x) for x in case["labels"]), mktime(case["time"])
        G = KINDS[case["kind"]]()
        G.add_nodes_from((L[i], {"x": 1}) for i in case["isolated"])
        names = case["names"]
        used = set()
        for u, v, b, n, x in case["edges"]:
            # the temporal graphs do not hold the same edge twice (in either orientation if undirected)
            key = orient(directed, (L[u], L[v], b, b + n if fam == "I" else b))
            if key in used and G.is_multigraph():
                continue
            used.add(key)
            at = dict(x)
            at.update(zip(names, (T(b), T(b + n))))
            G.add_edge(L[u], L[v], **at)
        seen = Counter()
        m = TModel(fam == "I", directed)
        for u, v, a in G.edges(data=True):
            e = (u, v) + tuple(a[n] for n in names)
            seen[orient(directed, e)] += 1
            m.add_edge(e, {k: x for k, x in a.items() if k not in names})
        if any(c > 1 for c in seen.values()):
            obs.hit("opposite directed edges at one time")
            return
        kw = {} if not case["explicit"] and names == TNAMES[fam][0] else dict(zip(("begin", "end") if fam == "I" else ("timestamp",), names))
        before = sorted(repr((u, v, frz(a))) for u, v, a in G.edges(data=True))
        got = cls.from_networkx_graph(G, **kw)
        what = "from_networkx_graph(%s, %s)" % (sorted(repr(e) for e in G.edges(data=True)), kw)
        compare_loaded(got, cls, m, what, oriented=directed and G.is_directed())
        same(sorted(repr((u, v, frz(a))) for u, v, a in G.edges(data=True)), before, "the NetworkX graph afterwards")
        if G.is_multigraph():
            obs.hit("multigraph")
        if len(m.edges) > len({orient(directed, e[:2] + (0,)) for e in m.edges}):
            obs.hit("parallel edges")
        if kw:
            obs.hit("named attributes")
        obs.nt(len(m.edges) >= 2)
    return run


def nx_roundtrip(fam, directed):
    def run(case, obs):
        d = Driver(fam, directed, case)
        kw = {"multigraph": True, "edge_data": True, "edge_interval_data" if fam == "I" else "edge_timestamp_data": True}

        def ask():
            G = d.g.to_networkx_graph(None, None, **kw)
            got = d.cls.from_networkx_graph(G)
            compare_loaded(got, d.cls, d.m, "to_networkx_graph and back", oriented=directed)
        d.run_asking(case, ask)
        if any(d.m.edges.values()):
            obs.hit("attributes")
        obs.nt(len(d.m.edges) >= 2)
    return run


@st.composite
def snap_seq(draw):
    k = draw(st.sampled_from([2, 3, 3, 4, 4, 6]))
    node = st.integers(0, k - 1)
    n = draw(st.sampled_from([1, 2, 3, 4, 5, 6, 10]))
    g = st.lists(st.tuples(node, node).map(list), max_size=draw(st.sampled_from([3, 6, 9])))
    return {"labels": LABELS[draw(label_names)][:k], "kind": draw(st.integers(0, 3)),
            "snapshots": draw(st.lists(g, min_size=n, max_size=n)),
            "order": draw(st.permutations(list(range(k)))),
            "begin": draw(st.sampled_from([None, 0, 0, -3, 1.5, 7])), "period": draw(st.sampled_from([None, 1, 2, 0.5, 10, 0.1, 1 / 3, 1e-4 / 7]))}


def from_snapshots(directed):
    cls = dnx.IntervalDiGraph if directed else dnx.IntervalGraph

    def run(case, obs):
        L = Fresh(label(x) for x in case["labels"])
        S = dnx.SnapshotDiGraph() if case["kind"] % 2 else dnx.SnapshotGraph()
        present, carried = [], []
        for i, es in enumerate(case["snapshots"]):
            G = KINDS[case["kind"]]()
            if i % 2:
                G.add_nodes_from((L[j], {}) for j in case["order"])      # changes the orientation in which edges are listed
            for j, (u, v) in enumerate(es):
                G.add_edge(L[u], L[v], **({"w": j, "in": i} if j % 3 else {}))
            S.insert(G, start=i * 10, end=i * 10 + 3)
            # an undirected edge has no direction in which to enter a directed graph: compare as pairs then
            asym = directed and G.is_directed()
            present.append({orient(asym, (u, v)) for u, v in G.edges()})
            at = {}
            for u, v, a in G.edges(data=True):
                at.setdefault(orient(asym, (u, v)), []).append(dict(a))
            carried.append(at)
        asym = directed and case["kind"] % 2 == 1
        begin = 0 if case["begin"] is None else case["begin"]
        period = 1 if case["period"] is None else case["period"]
        want = {}
        n = len(present)
        for p in set().union(*present):
            i = 0
            while i < n:
                if p in present[i]:
                    j = i
                    while j < n and p in present[j]:
                        j += 1
                    want[p + (i, j)] = [a for x in carried[i:j] for a in x[p]]
                    if j - i >= 2:
                        obs.hit("run of >=2 snapshots")
                        obs.nt()
                    i = j
                else:
                    i += 1
        kw = {k: case[k] for k in ("begin", "period") if case[k] is not None}
        got = cls.from_snapshot_graph(S, **kw)
        what = "from_snapshot_graph(%s) of %s" % (kw, present)
        check(type(got) is cls, "%s: got a %s", what, type(got).__name__)
        def position(t):
            """the number of the snapshot at whose begin t is; repeated addition of the period may have rounded it"""
            i = round((t - begin) / period)
            check(near(t, begin + i * period) or abs(t - begin - i * period) < 1e-9 * period, "%s: time %r is no multiple of the period", what, t)
            return i
        es = [(orient(asym, e[:2]) + (position(e[2]), position(e[3])), a) for e, a in got.edges(data=True)]
        same_set([e for e, _ in es], want, what + " (times as snapshot numbers)")
        for e, a in es:
            check(a in want[e], "%s: edge %r has %r, which its pair has in none of the snapshots", what, e, a)
        if len(want) > len({e[:2] for e in want}):
            obs.hit("interrupted pair")
        if case["kind"] >= 2:
            obs.hit("multigraph snapshots")
        if case["kind"] % 2:
            obs.hit("directed snapshots")
    return run


register("C18", "NetworkX (multi)(di)graphs with time attributes under generated names converted to each class; graphs of all four classes "
         "converted to NetworkX multigraphs and back; sequences of 1-10 snapshots (simple/multi, directed or not, nodes in any order) "
         "converted to interval graphs and compared with maximal runs; non-trivial: at least two edges, or a run over two snapshots.",
         [Sub("from-nx-" + n, nx_case(f), from_nx(f, dr), 900) for f, dr, n in CLS] +
         [Sub("nx-round-trip-" + n, history(max_ops=10, min_ops=2), nx_roundtrip(f, dr), 400) for f, dr, n in CLS] +
         [Sub("nx-round-trip-large-" + n, history(max_ops=4, bulk=150), nx_roundtrip(f, dr), 60) for f, dr, n in CLS] +
         [Sub("nx-round-trip-wide-" + n, wide(), nx_roundtrip(f, dr), 12) for f, dr, n in CLS] +
         [Sub("from-snapshots-" + ("directed" if dr else "undirected"), snap_seq(), from_snapshots(dr), 1200) for dr in (False, True)])

"""C25: times of any orderable type."""
import datetime
import functools
import os
import shutil
import tempfile
from decimal import Decimal
from fractions import Fraction

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from ..core import Sub, register
from ..drive import Driver, frz, same, short
from ..gen import LABELS, history, node_count, window
from .meta import View, compare, questions
from .nodes import CLS
from .snaps import SUBS, SnapDriver, build, c13_case, canon_graph, win


@functools.total_ordering
class Moment:
    """an orderable type with nothing but an order"""

    def __init__(self, k):
        self.k = k

    def __eq__(self, other):
        if not isinstance(other, Moment):
            return NotImplemented
        return self.k == other.k

    def __lt__(self, other):
        if not isinstance(other, Moment):
            return NotImplemented
        return self.k < other.k

    def __hash__(self):
        return hash(("m", self.k))

    def __repr__(self):
        return "Moment(%d)" % self.k


WORDS = ["%s%s" % (a, b) for a in "abcdefghijk" for b in ("", "a", "b c", "z0", "zz")]
assert WORDS == sorted(set(WORDS))
DAY = datetime.timedelta(days=1)

# name -> (tick -> time); ticks lie in -10 .. 44
KINDS = {
    "word": lambda k: WORDS[k + 10],
    "digits": lambda k: "%03d" % (k + 10),
    "date": lambda k: datetime.date(2019, 12, 30) + k * DAY,
    "datetime": lambda k: datetime.datetime(2020, 1, 1, 23, 59) + k * datetime.timedelta(minutes=7),
    "timedelta": lambda k: k * DAY / 3,
    "timestamp": lambda k: pd.Timestamp(2021, 3, 1) + pd.Timedelta(hours=k),
    "tuple": lambda k: (k // 4, k % 4),
    "bytes": lambda k: b"%03d" % (k + 10),
    "fraction": lambda k: Fraction(k, 7),
    "decimal": lambda k: Decimal(k) / 10,
    "int64": lambda k: np.int64(k),
    "float32": lambda k: np.float32(k) / 4,
    "datetime64": lambda k: np.datetime64("2020-01-01") + np.timedelta64(k, "D"),
    "moment": Moment,
    "infinite": None,
    "mixed numbers": None,
}
NAMES = sorted(KINDS)
DIVISIBLE = {"datetime", "timedelta", "timestamp", "fraction", "decimal", "int64", "float32"}
LOW, HIGH = -10, 44


def mapping(case, used):
    """(tick -> plain tick, tick -> time, time -> plain tick)"""
    name = case["kind"]
    top, bottom = HIGH, LOW
    f = KINDS[name]
    if name == "infinite":
        # the latest (and the earliest) times of the history are infinite
        top = max(used)
        if case["both"] and min(used) < top:
            bottom = min(used)

        def f(k):
            return float("inf") if k == top else float("-inf") if k == bottom else k
    if name == "mixed numbers":
        # equal numbers of different types are the same time
        n = [len(used)]

        def f(k):
            n[0] += 1
            return [k, float(k), Fraction(k), np.int64(k), np.float64(k)][n[0] * 5 % 7 % 5]
    table = {}
    for k in range(bottom, top + 1):
        table[f(k)] = k
    assert len(table) == top + 1 - bottom

    def plain(k):
        return None if k is None else min(max(k, bottom), top)
    return plain, lambda k: None if k is None else f(plain(k)), lambda t: table.get(t, "?%r" % (t,))


def event_ticks(ops):
    out = []
    for op in ops:
        if op[0] == "edge":
            out += op[3:5]
        elif op[0] == "edges":
            out += [t for e in op[1] for t in e[2:4]]
    return out or [0, 1]


@st.composite
def order_case(draw, fam):
    k = draw(node_count)
    case = draw(history(max_ops=9, min_ops=2, k=k, incls=(fam == "P"), time=st.just([0, 1]), labels=["chars", "int0", "words"]))
    case["questions"] = [q for q in draw(st.lists(questions(k, fam), min_size=3, max_size=8)) if q[0] != "motif"]
    case["kind"] = draw(st.sampled_from(NAMES))
    # twice 1, 2, 4 or 8 snapshots, where the bounds have no rounding
    case["questions"] = [[q[0], {-3: 1}.get(q[1], q[1]), q[2]] if q[0] == "snapshots" else q for q in case["questions"]
                         if q[0] != "snapshots" or case["kind"] in DIVISIBLE]
    case["both"] = draw(st.booleans())
    return case


class Number:
    """any numeral -> number"""

    def __getitem__(self, s):
        return Fraction(s)


def text(v):
    """the edges after writing to text and reading back with the type of the times"""
    d = v.d
    if not d.m.edges or "" in d.labels:
        return None
    tmp = tempfile.mkdtemp(prefix="dnxpbt")
    try:
        path = os.path.join(tmp, "g.txt")
        d.g.save_to_txt(path, delimiter=";")
        back = {str(d.T(k)): d.T(k) for k in range(LOW, HIGH + 1)}
        if d.mixed:
            back = Number()
        kw = {"intervaltype" if d.interval else "timestamptype": lambda s: back[s], "nodetype": int if isinstance(d.labels[0], int) else str}
        return sorted(map(repr, map(v.edge, d.cls.load_from_txt(path, delimiter=";", **kw).edges())))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def order_check(fam, directed):
    def run(case, obs):
        plain, T, back = mapping(case, event_ticks(case["ops"]))
        a = Driver(fam, directed, case, T=plain)
        b = Driver(fam, directed, case, T=T)
        a.mixed = False
        b.mixed = case["kind"] == "mixed numbers"
        what = "times as %s" % case["kind"]
        # questions before the first edge
        empty = [["edges", None, None, [0, 3], None], ["nodes", [1, None], None], ["edges", None, 0, [None, 2], None],
                 ["has", 0, 1, [None, 5], None], ["subgraph", [1, None], None, [True, False, False, False]]]
        va, vb = View(a, lambda t: t, True), View(b, back, True)
        va.whole = None
        compare(va, vb, empty, what + ", empty graph", obs)
        for i, op in enumerate(case["ops"]):
            a.apply(op)
            b.apply(op)
            if i in case.get("stops", ()):
                compare(va, vb, case["questions"], "%s, after step %d" % (what, i), obs)
        va.whole = va.ask(["edges", None, None, [None, None], None])
        n = compare(va, vb, [["edges", None, None, [None, None], None], ["nodes", [None, None], None], ["extent", [None, None], 0]] +
                    case["questions"], what, obs)
        same(text(vb), text(va), what + ": text round trip")
        obs.nontrivial = n >= 3 and bool(a.m.edges)
        obs.hit("times: " + case["kind"])
    return run


def snap_case():
    @st.composite
    def make(draw):
        case = draw(c13_case())
        case["time"] = [0, 1]
        case["kind"] = draw(st.sampled_from(NAMES))
        case["both"] = draw(st.booleans())
        case["windows"] = draw(st.lists(win, min_size=1, max_size=5))
        return case
    return make()


def snap_check(directed):
    def run(case, obs):
        plain, T, back = mapping(case, [t for s in case["snapshots"] for t in s[0]])
        a, b = (SnapDriver(dict(case, time=f), directed, convert=True) for f in (plain, T))
        what = "times as %s" % case["kind"]

        def state(d, f):
            return [(tuple(map(f, k)), repr(canon_graph(G))) for k, G in d.S.snapshots.items()]

        def compare_all(w):
            same(state(b, back), state(a, lambda t: t), w)
            for x in case["windows"]:
                res = []
                for d in (a, b):
                    kw = {k: d.T(t) for k, t in zip(("start", "end"), x) if t is not None}
                    S = d.S
                    sub = S.subgraph(d.L[:2], **kw)
                    f = back if d is b else lambda t: t
                    res.append(([repr(canon_graph(G)) for G in S.get(**kw)], S.number_of_nodes(**kw), S.size(**kw),
                                [(tuple(map(f, k)), repr(canon_graph(G))) for k, G in sub.snapshots.items()]))
                same(res[1], res[0], "%s, window %s" % (w, x))
        compare_all(what)
        changed = False
        for op, items, at, sel in case["ops"]:
            for d in (a, b):
                if op == "replace":
                    k = list(d.S.snapshots.keys())
                    k = k[at % len(k)]
                    d.S.insert(build(items, d.L, directed), start=k[0], end=k[1])
                    continue
                kw = ({"sbunch": sel["sbunch"]} if "sbunch" in sel else
                      {k: d.T(t) for k, t in zip(("start", "end"), sel["win"]) if t is not None})
                if set(kw) == {"start", "end"} and not kw["start"] < kw["end"]:
                    continue
                L = d.L
                if op == "nodes":
                    bunch = [(L[i], dict(x or {})) for i, x in items]
                else:
                    bunch = [(L[u], L[v], dict(x or {})) for u, v, x in items]
                try:
                    (d.S.add_nodes_from if op == "nodes" else d.S.add_edges_from)(bunch, **kw, **at)
                except IndexError:
                    continue
                changed = changed or bool(items)
            compare_all("%s, after add_%s_from(%s, %s)" % (what, op, short(items), sel))
        obs.nt(changed and len(a.S) > 1)
        obs.hit("times: " + case["kind"])
    return run


register("C25", "A history of 2-9 operations replayed with integer times and with the times mapped, order preserving, to one of 16 kinds (strings, dates, datetimes, "
         "timedeltas, pandas and NumPy times, tuples, bytes, fractions, decimals, a class with nothing but an order, infinite first and last times, numbers of varying types); "
         "3-8 generated questions (before the first edge, and at the end), the text round trip, and for snapshot collections every selection and windowed "
         "update must give the corresponding answers; non-trivial: the graph has edges (an update changed one of several snapshots).",
         [Sub(n, order_case(f), order_check(f, dr), 1000) for f, dr, n in CLS] +
         [Sub("snapshots-" + n, snap_case(), snap_check(dr), 700) for n, dr in SUBS])

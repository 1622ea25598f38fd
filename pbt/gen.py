"""Hypothesis strategies. Cases are JSON values: nodes are indices into a label
list, times are integer ticks of a time scheme (t = off + scale*tick)."""
import random

from hypothesis import strategies as st

LABELS = {
    "int0": [0, 1, 2, 3, 4, 5, 6, 7],
    "ints": [7, 0, -1, 12, 3, -20, 100, 5],
    "chars": ["a", "b", "c", "d", "e", "f", "g", "h"],
    "words": ["ab", "a", "ba", "abc", "", "node 1", "b", "u"],
    "tuples": [["t", 1, 2], ["t", 2, 1], ["t", "x", 0], ["t", 0], ["t"], ["t", "uv", "w"], ["t", ["t", 1], 2], ["t", 9, 9]],
    "mixed": [0, "0", 1.5, ["t", "p", "q"], "zz", -3, ["t", "k"], "z"],
    "sets": [{"set": [1, 2]}, {"set": []}, {"set": [1]}, 1, 2, {"set": [7]}, ["t", {"set": [3]}], 0],
    "collide": [-1, -2, 0, 2 ** 61 - 1, 1, 2 ** 61, -(2 ** 61), ""],
    "big": [10 ** 9, 10 ** 9 + 1, -(10 ** 12), 2 ** 63, 0, 1, 2, 3],
}

# 20 labels of each kind: larger graphs use more of them
_MORE = {
    "int0": list(range(8, 20)),
    "ints": [13, -2, 1, 99, 41, -7, 10 ** 6, 2, 6, 4, 55, 8],
    "chars": list("ijklmnopqrst"),
    "words": ["n%d" % i for i in range(9)] + ["n 1", "N1", "v"],
    "tuples": [["t", 3, i] for i in range(12)],
    "mixed": [10, "10", 2.5, ["t", "r", "q"], "yy", -4, ["t", "l"], "y", 100, "100", 7, "7"],
    "sets": [{"set": [i, i + 1]} for i in range(20, 28)] + [3, 4, 5, 6],
    "collide": [-3, 2, 3, 2 ** 61 + 1, 2 ** 62, 4, 5, 6, -(2 ** 62), 7, 8, 9],
    "big": [4, 5, 6, 10 ** 9 + 2, -(10 ** 12) - 1, 2 ** 64, 7, 8, 9, 10, 11, 2 ** 70],
}
for _n, _l in _MORE.items():
    LABELS[_n] = LABELS[_n] + _l
    assert len(set(map(repr, LABELS[_n]))) == 20

SIMPLE_LABELS = ["int0", "ints", "chars"]

TIMES = [[0, 1], [0, 1], [-4, 1], [-9, 1], [100, 1], [0, 0.5], [-1.5, 0.25], [0.1, 0.1], [10 ** 9, 1], [0, 1000], [-3, 0.5], [2.0, 1],
         [0, 1, "alt"], [-5, 1, "alt"], [1600000000.123456, 0.015625], [0, 2.0 ** -40]]

ATTRS = [{}, {}, {}, {"w": 1}, {"w": 2}, {"w": 0}, {"c": "r"}, {"c": "", "w": 3.5}, {"w": None}, {"k": "v", "c": "g", "w": -1}, {"flag": False},
         {"weight": 2}, {"key": "x", "name": "n"}, {"data": 1, "default": 0, "time": "t", "c": "r"}]


PLAIN = [{}, {"w": 1}, {"c": "red", "w": 2.5}, {"kind": "x_y"}]


def label(x):
    if isinstance(x, list):
        return tuple(label(y) for y in x[1:])
    if isinstance(x, dict):
        return frozenset(label(y) for y in x["set"])
    return x


label_names = st.sampled_from(["int0", "ints", "chars", "words", "tuples", "mixed", "big", "sets", "collide"])
times = st.sampled_from(TIMES)
# and times (as nanoseconds since 1970) which floats cannot represent: of no use where text is read back as floats
all_times = st.sampled_from(TIMES + [[1700000000000000123, 10 ** 9], [-1700000000000000123, 10 ** 9]])
attrs = st.sampled_from(ATTRS)


class Fresh(list):
    """node labels; every access gives an equal but (where Python allows) new object, as a user's would be"""

    def __getitem__(self, i):
        x = list.__getitem__(self, i)
        return Fresh(x) if isinstance(i, slice) else fresh(x)

    def __iter__(self):
        return map(fresh, list.__iter__(self))


def fresh(x):
    if isinstance(x, tuple):
        return tuple([fresh(y) for y in x])
    if isinstance(x, frozenset):
        return frozenset([fresh(y) for y in x])
    if isinstance(x, str):
        return "".join(list(x))
    if type(x) is int:
        return int(str(x))
    return x


def mktime(scheme):
    """ticks -> times; "alt": the same times as int and as float in turn"""
    off, scale = scheme[:2]
    n = [0]

    def T(k):
        if k is None:
            return None
        if len(scheme) > 2:
            n[0] += 1
            return off + scale * k + (0.0 if n[0] % 3 == 0 else 0)
        return off + scale * k
    return T


LO, HI = -2, 12      # ticks of events
tick = st.integers(LO, HI)
# how many nodes: mostly few, sometimes more than ten
few_or_many = st.one_of(st.integers(2, 8), st.integers(9, 20))
node_count = st.one_of(st.integers(2, 6), st.integers(2, 6), st.integers(2, 6), st.integers(7, 16))
near_ticks = st.integers(LO - 1, HI + 3)
wtick_some = st.one_of(near_ticks, near_ticks, near_ticks, st.integers(LO - 3, HI + 15))
wtick = st.one_of(near_ticks, near_ticks, near_ticks, near_ticks, st.integers(LO - 3, HI + 15), st.none())
dur = st.sampled_from([0, 1, 1, 2, 2, 3, 4, 5, 7, 9, 14])


@st.composite
def window(draw, none=True, point=True):
    """(begin, end) ticks with begin <= end, either side possibly None"""
    b = draw(wtick if none else wtick_some)
    mode = draw(st.integers(0, 9))
    if b is None:
        e = draw(wtick)
        return [None, e]
    if none and mode == 0:
        return [b, None]
    if point and mode in (1, 2):
        return [b, b]
    return [b, b + draw(st.integers(0 if point else 1, 9))]


incl = st.sampled_from([None, None, 0, 1, 2, 3])


def bulk_edges(op, k):
    """deterministic expansion of ["bulk", n, p, q, a, m, d]"""
    _, n, p, q, a, m, d = op
    out = []
    for i in range(n):
        u = (i * p) % k
        v = (i * q + i // k + 1) % k
        b = (i * a) % m - m // 3
        out.append((u, v, b, b + (i * (a + 1)) % (d + 1)))
    return out


def wide_edges(op, k):
    """deterministic expansion of ["wide", n, seed, ticks, longest, plain]: random edges over all nodes"""
    _, n, seed, ticks, longest, plain = op
    r = random.Random(seed)
    out, path = [], list(range(k))
    r.shuffle(path)
    for i in range(n):
        # every node occurs, then any
        u, v = (path[(2 * i) % k], path[(2 * i + 1) % k]) if 2 * i < k else (r.randrange(k), r.randrange(k))
        b = r.randrange(ticks)
        out.append((u, v, b, b + r.randint(0, longest), r.choice(PLAIN if plain else ATTRS)))
    return out


def event_ticks(case):
    """the times at which edges of the history begin or end"""
    out = set()
    for op in case["ops"]:
        if op[0] == "edge":
            out.update(op[3:5])
        elif op[0] == "edges":
            for e in op[1]:
                out.update(e[2:4])
        elif op[0] == "bulk":
            for e in bulk_edges(op, len(case["labels"])):
                out.update(e[2:4])
        elif op[0] == "wide":
            for e in wide_edges(op, len(case["labels"])):
                out.update(e[2:4])
    return sorted(out)


@st.composite
def window_near(draw, case, none=True):
    """a window with bounds at, or one tick beside, the events of the history"""
    ev = event_ticks(case)
    if not ev or draw(st.integers(0, 3)) == 0:
        return draw(window(none=none))
    at = st.tuples(st.integers(0, len(ev) - 1), st.sampled_from([0, 0, 0, 0, 1, -1])).map(lambda x: ev[x[0]] + x[1])
    a, b = sorted((draw(at), draw(at)))
    side = draw(st.integers(0, 5)) if none else 2
    return [None, b] if side == 0 else [a, None] if side == 1 else [a, b]


def ends(case):
    """(u, v) of the edges of the history"""
    out = []
    for op in case["ops"]:
        if op[0] == "edge":
            out.append(tuple(op[1:3]))
        elif op[0] == "edges":
            out.extend(tuple(e[:2]) for e in op[1])
        elif op[0] == "bulk":
            out.extend(e[:2] for e in bulk_edges(op, len(case["labels"]))[:30])
        elif op[0] == "wide":
            out.extend(e[:2] for e in wide_edges(op, len(case["labels"]))[:30])
    return list(dict.fromkeys(out))


# the window of a removal: anywhere, or given by the distances of its bounds from the edge it is aimed at
off = st.sampled_from([0, 0, 0, 1, -1, None])
around = st.one_of(window(), st.tuples(st.sampled_from(["bb", "be", "ee", "be"]), off, off))


def aimed(w, b, e):
    if not isinstance(w, tuple):
        return w
    x, y = {"bb": (b, b), "be": (b, e), "ee": (e, e)}[w[0]]
    x, y = None if w[1] is None else x + w[1], None if w[2] is None else y + w[2]
    return [x, y] if x is None or y is None or x <= y else [y, x]


@st.composite
def raw_op(draw, kinds, k, attr, incls, self_loops):
    """one unresolved operation: references to earlier edges are indices"""
    kind = draw(st.sampled_from(kinds))
    node = st.integers(0, k - 1)
    A = attrs if attr else st.just({})
    if kind == "edge":
        u, v, b, d = draw(st.tuples(node, node, tick, dur))
        return ("edge", u, v if self_loops or u != v else (u + 1) % k, b, b + d, draw(A))
    if kind == "edges":
        es = draw(st.lists(st.tuples(node, node, tick, dur), max_size=5))
        return ("edges", [[u, v if self_loops or u != v else (u + 1) % k, b, b + d] for u, v, b, d in es], draw(A))
    if kind == "readd":
        return ("readd", draw(st.integers(0, 200)), draw(A))
    if kind == "node":
        return ("node", draw(node), draw(A))
    if kind == "nodes":
        return ("nodes", draw(st.lists(st.tuples(node, st.one_of(st.none(), A)).map(list), max_size=3)), draw(A))
    if kind == "rme":
        return ("rme", draw(st.integers(0, 200)), draw(st.integers(0, 7)), draw(node), draw(node), draw(around),
                draw(incl) if incls else None)
    if kind == "exact":
        return ("exact", draw(st.integers(0, 200)), draw(st.integers(0, 5)))
    if kind == "rmn":
        w = draw(around) if draw(st.integers(0, 2)) else [None, None]
        return ("rmn", draw(st.integers(0, 200)), draw(st.integers(0, 3)), draw(node), w, draw(incl) if incls else None)
    return ("unbulk", draw(st.integers(0, 5)), draw(st.integers(1, 4)))


def resolve(raw, k, added):
    """references -> concrete operations"""
    ops = []
    for r in raw:
        kind = r[0]
        if kind == "edge":
            ops.append(list(r))
            added.append(r[1:5])
        elif kind == "edges":
            ops.append(list(r))
            added.extend(tuple(e) for e in r[1])
        elif kind in ("node", "nodes", "unbulk"):
            ops.append(list(r))
        elif kind == "rmn" and (r[2] == 3 or not added):
            w = r[4] if not isinstance(r[4], tuple) else [None, None]
            ops.append(["rmn", r[3], w[0], w[1], r[5]])
        elif not added:
            continue
        elif kind == "readd":
            u, v, b, e = added[r[1] % len(added)]
            ops.append(["edge", u, v, b, e, r[2]])
        elif kind == "rme":
            u, v, b, e = added[r[1] % len(added)]
            if r[2] == 7:
                u, v = r[3], r[4]
            elif r[2] >= 5:
                u, v = v, u
            w = aimed(r[5], b, e)
            ops.append(["rme", u, v, w[0], w[1], r[6]])
        elif kind == "rmn":
            u, v, b, e = added[r[1] % len(added)]
            w = aimed(r[4], b, e)
            ops.append(["rmn", u if r[2] else v, w[0], w[1], r[5]])
        elif kind == "exact":
            u, v, b, e = added[r[1] % len(added)]
            if r[2] == 5:
                u, v = v, u
            elif r[2] == 4:
                e += 1
            ops.append(["exact", u, v, b, e])
    return ops


@st.composite
def history(draw, max_ops=12, removal=True, k=None, labels=None, bulk=0, nodes=True, self_loops=True, attr=True,
            min_ops=1, time=None, incls=True):
    k = draw(node_count) if k is None else draw(k) if isinstance(k, st.SearchStrategy) else k
    lab = draw(st.sampled_from(labels)) if labels else draw(label_names)
    tm = draw(all_times if time is None else time)
    kinds = ["edge"] * 8 + ["edges"] * 2 + ["readd"] * 2
    if nodes:
        kinds += ["node", "nodes"]
    if removal:
        kinds += ["rme"] * 4 + ["rmn"] * (2 if nodes else 0) + ["exact"] * 2 + ["unbulk"]
    ops, added = [], []
    if bulk:
        op = ["bulk", draw(st.integers(0, bulk)), draw(st.integers(1, 7)), draw(st.integers(1, 7)),
              draw(st.sampled_from([0, 1, 1, 3, 5, 7, 11, -1, -3, -8])),
              draw(st.sampled_from([1, 4, 9, 17, 31, 101])), draw(st.sampled_from([0, 1, 2, 4, 6, 10, 40]))]
        ops.append(op)
        added.extend(bulk_edges(op, k))
    if max_ops > 4:
        # most histories begin with a few edges
        es = draw(st.lists(st.tuples(st.integers(0, k - 1), st.integers(0, k - 1), tick, dur),
                           max_size=draw(st.sampled_from([0, 4, 6, 8]))))
        raw = [("edge", u, v if self_loops or u != v else (u + 1) % k, b, b + n, {}) for u, v, b, n in es]
        ops += resolve(raw, k, added)
    most = draw(st.sampled_from([max_ops, max_ops, max_ops, 3 * max_ops]))
    raw = draw(st.lists(raw_op(kinds, k, attr, incls, self_loops), min_size=min_ops, max_size=most))
    ops += resolve(raw, k, added)
    # the steps after which the questions are also asked: earlier answers must not leak into later ones
    stops = draw(st.lists(st.integers(-1, 9), max_size=2))
    # histories compared after every step hide what is remembered across several: some are only compared at the stops
    return {"labels": LABELS[lab][:k], "time": tm, "ops": ops, "stops": [i for i in stops if i < len(ops) - 1],
            "every": draw(st.sampled_from([True, True, False]))}


@st.composite
def wide(draw, edges=900, time=None, plain=False):
    """a graph of several hundred nodes, and a short history on it"""
    k = draw(st.integers(250, 800))
    op = ["wide", draw(st.integers(edges // 3, edges)), draw(st.integers(0, 9999)), draw(st.sampled_from([1, 12, 40, 300])),
          draw(st.sampled_from([0, 2, 9, 60])), plain]
    ops, added = [op], [e[:4] for e in wide_edges(op, k)]
    ops += resolve(draw(st.lists(raw_op(["edge", "readd", "node", "rme", "rmn", "exact"], k, not plain, True, True), max_size=4)), k, added)
    return {"labels": list(range(k)), "time": draw(times if time is None else time), "ops": ops, "stops": [], "every": False}

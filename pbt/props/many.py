"""Graphs of a few thousand edges, whose trees are deep, for several properties."""
import random

from hypothesis import strategies as st

from ..core import Sub
from ..drive import Driver, same, same_set

CLS = [("I", False, "interval-undirected"), ("I", True, "interval-directed"),
       ("P", False, "impulse-undirected"), ("P", True, "impulse-directed")]

ORDERS = ["up", "down", "shuffled", "zigzag", "outwards", "blocks", "evens then odds"]


def order_of(name, n, seed):
    r = random.Random(seed)
    i = list(range(n))
    if name == "down":
        i.reverse()
    elif name == "shuffled":
        r.shuffle(i)
    elif name == "zigzag":
        i = [x for p in zip(i, reversed(i)) for x in p][:n]
    elif name == "outwards":
        i = [n // 2 + (x // 2 if x % 2 else -(x + 1) // 2) for x in range(n)]
        i = [x for x in i if 0 <= x < n] + [x for x in range(n) if x not in set(i)]
    elif name == "blocks":
        w = r.choice([2, 3, 4, 7, 16])
        out = []
        for s in range(0, n, w):
            b = i[s:s + w]
            r.shuffle(b)
            out += b
        i = out if seed % 2 else out[::-1]
    elif name == "evens then odds":
        i = i[::2] + i[1::2]
    return i


@st.composite
def many_case(draw):
    n = draw(st.integers(1200, 4000))
    tick_ = st.integers(-5, 2 * n + 5)
    return {"n": n, "order": draw(st.sampled_from(ORDERS)), "seed": draw(st.integers(0, 999)), "step": draw(st.sampled_from([1, 1, 2, 0.5])),
            "off": draw(st.sampled_from([0, -2000, 7])), "durations": draw(st.lists(st.sampled_from([0, 1, 2, 3, 10, 500, 10 ** 5]), min_size=1, max_size=6)),
            "k": draw(st.integers(2, 40)), "bulk": draw(st.booleans()),
            "remove": draw(st.sampled_from([None, [0, 2], [0, 1], [5, 3], [0, 50], [1, 7]])), "remove_order": draw(st.sampled_from(ORDERS)),
            "by_node": draw(st.booleans()),
            "windows": draw(st.lists(st.tuples(tick_, st.one_of(st.just(0), st.integers(0, 40), tick_.map(abs))).map(list), min_size=3, max_size=8))}


def many_check(fam, directed):
    def run(case, obs):
        n, k, off, step = case["n"], case["k"], case["off"], case["step"]
        d = Driver(fam, directed, {"labels": list(range(k)), "time": [0, 1]})
        g, m = d.g, d.m
        du = case["durations"]
        es, seen = [], set()
        for i in order_of(case["order"], n, case["seed"]):
            u, v = (i * 7) % k, (i * 3 + i // k) % k
            e = (u, v, off + step * i, off + step * (i + du[i % len(du)]))[:4 if d.interval else 3]
            mirror = (v, u) + e[2:]
            if not directed and mirror in seen:
                continue
            seen.add(e)
            es.append(e)
        if case["bulk"]:
            g.add_edges_from(es)
        else:
            for e in es:
                g.add_edge(*e)
        for e in es:
            m.add_edge(e, {})

        def ask(where):
            same_set(g.edges(), m.edges, where + "edges()")
            ext = m.extent()
            if ext is not None:
                same(tuple(g.interval()), ext, where + "interval()")
            for b, w in case["windows"]:
                b = off + b
                for x, y in ((b, b + w), (None, b), (b, None)):
                    same_set(g.edges(begin=x, end=y), m.window(x, y), where + "edges(begin=%r, end=%r)" % (x, y))
                same_set(g.edges(u=1, begin=b, end=b + w), m.select([1], None, b, b + w), where + "edges(1, begin=%r, end=%r)" % (b, b + w))
                found = m.window(b, b + w)
                same_set(g.nodes(begin=b, end=b + w), {x for e in found for x in e[:2]}, where + "nodes(begin=%r, end=%r)" % (b, b + w))
                same(bool(g.has_edge(0, 1, b, b + w)), bool(m.select([0], [1], b, b + w, (True, directed))),
                     where + "has_edge(0, 1, %r, %r)" % (b, b + w))
            if d.interval:
                same(list(g.unique_timestamps()), m.times(), where + "unique_timestamps()")
        ask("%d edges: " % n)
        if case["remove"]:
            order = [es[i] for i in order_of(case["remove_order"], len(es), case["seed"] + 1)]
            for e in order[case["remove"][0]::case["remove"][1]]:
                if d.interval:
                    g.remove_edge(e[0], e[1], e[2], e[3], overlapping=False)
                else:
                    g.remove_edge(e[0], e[1], e[2], e[2], inclusive=(True, True))
                m.remove([e])
            ask("after removals: ")
            obs.hit("removals")
        if case["by_node"]:
            g.remove_node(1)
            m.remove_node(1, None, None, (True, False))
            ask("after the removal of a node: ")
            obs.hit("node removed")
        obs.hit("order " + case["order"])
        obs.nt(len(es) > 1000)
    return run


def many_subs(fams, interval, impulse):
    return [Sub(n + "-many", many_case(), many_check(f, dr), interval if f == "I" else impulse) for f, dr, n in CLS if f in fams]

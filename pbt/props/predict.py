"""C19: the predictive query model."""
from contextlib import contextmanager

from hypothesis import strategies as st

from ..core import Sub, register
from ..drive import Driver, check, graph_state, same
from ..gen import few_or_many, history, incl, window
from .edges import selection_queries, with_selections
from .nodes import CLS, degree_queries


@contextmanager
def training_outcome(policy):
    """Within the block every linear regression learns the given outcome:
    (a0, a1, a2, b0, b1, b2): predicted node-first time a0 + a1*nodes + a2*span, interval-first time b0 + ..."""
    if policy is None:
        yield
        return
    from sklearn.linear_model import LinearRegression
    import numpy as np
    real = LinearRegression.fit

    def fit(self, X, y, *args, **kw):
        real(self, X, y, *args, **kw)
        if self.coef_.shape == (2, 2):
            self.intercept_ = np.array([policy[0], policy[3]], dtype=float)
            self.coef_ = np.array([policy[1:3], policy[4:6]], dtype=float)
        return self

    LinearRegression.fit = fit
    try:
        yield
    finally:
        LinearRegression.fit = real


NODE_FIRST, INTERVAL_FIRST, TIE = [0, 0, 0, 1, 0, 0], [1, 0, 0, 0, 0, 0], [1, 0, 0, 1, 0, 0]
coef = st.integers(-3, 3)


@st.composite
def trained(draw, hist, inclusive):
    case = draw(with_selections(hist, inclusive))
    k = len(case["labels"])
    case["policy"] = draw(st.one_of(st.just(INTERVAL_FIRST), st.just(INTERVAL_FIRST), st.just(NODE_FIRST), st.just(TIE),
                                    st.lists(coef, min_size=6, max_size=6), st.none()))
    case["train_at"] = draw(st.integers(0, len(case["ops"])))
    case["size"] = draw(st.sampled_from([2, 3, 10]))
    case["degrees"] = draw(st.lists(st.tuples(st.integers(0, k - 1), window(), incl if inclusive else st.none()).map(list), max_size=2))
    return case


def predict_check(fam, directed):
    def run(case, obs):
        d = Driver(fam, directed, case)
        at = None
        for n, op in enumerate(case["ops"] + [None]):
            if at is None and n >= case["train_at"] and d.m.edges and d.m.extent()[0] < d.m.extent()[1]:
                before = graph_state(d.g)
                with training_outcome(case["policy"]):
                    d.g.generate_predictive_model(training_size=case["size"])
                same(graph_state(d.g), before, "the graph after generate_predictive_model()")
                at = n
            if op is not None:
                d.apply(op)
        if at is None:
            obs.hit("never trainable")
        else:
            obs.hit("real outcome" if case["policy"] is None else "interval first" if case["policy"] == INTERVAL_FIRST
                    else "node first" if case["policy"] == NODE_FIRST else "other outcome")
            if at < len(case["ops"]):
                obs.hit("updated after training")
        if not d.m.edges:
            obs.hit("emptied")
        selection_queries(d, case["queries"], obs)
        degree_queries(d, case["degrees"], obs)
        if at is None:
            obs.nontrivial = False
        else:
            obs.nontrivial = bool(d.m.edges) and any(
                (u is not None or v is not None) and w != [None, None] for u, v, w, *_ in case["queries"])
    return run


@st.composite
def train_case(draw, inclusive):
    """plain training on graphs of any shape, small to sparse"""
    case = draw(history(max_ops=4, removal=False, bulk=25))
    case["size"] = draw(st.sampled_from([1, 5, 30]))
    case["isolated"] = draw(st.sampled_from([0, 0, 1, 60]))
    return case


def training_check(fam, directed):
    def run(case, obs):
        d = Driver(fam, directed, case)
        d.run(case["ops"])
        for i in range(case["isolated"]):
            d.g.add_node(("isolated", i))
            d.m.add_node(("isolated", i), {})
        ex = d.m.extent()
        if ex is None or not ex[0] < ex[1]:
            return
        before = graph_state(d.g)
        d.g.generate_predictive_model(case["size"])
        same(graph_state(d.g), before, "the graph after generate_predictive_model(%d)" % case["size"])
        obs.nt()
        if len(d.m.edges) == 1:
            obs.hit("single edge")
        if any(isinstance(t, float) for e in d.m.edges for t in e[2:]):
            obs.hit("fractional times")
        n = next(iter(d.m.nodes))
        if d.queryable(n):
            same(len(d.g.edges(u=n, begin=ex[0])), len(d.m.select([n], None, ex[0])), "edges of a node after training")
    return run


register("C19", "Graphs of all four classes built by histories, trained at a generated point of the history (also before later "
         "updates) with a forced training outcome (always interval first, always node first, tie, any linear cost) or the real "
         "one; node- and window-constrained edges (data, default, inclusive) and degrees compared with the model as for an untrained "
         "graph; training alone on small, sparse and fractional-time graphs ends and changes nothing; non-trivial: trained, with edges, "
         "and at least one query constrained by node and window (for training subs: the graph was trainable).",
         [Sub(n, trained(history(max_ops=10, min_ops=3, incls=(f == "P")), f == "P"), predict_check(f, dr), 700) for f, dr, n in CLS] +
         [Sub(n + "-large", trained(history(max_ops=4, bulk=60, k=few_or_many), f == "P"), predict_check(f, dr), 120) for f, dr, n in CLS] +
         [Sub(n + "-training", train_case(f == "P"), training_check(f, dr), 150) for f, dr, n in CLS])

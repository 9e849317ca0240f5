"""C26: unions and intersections of independent events"""
from fractions import Fraction

from hypothesis import strategies as st

from pbt.core import Sub, equal, raises, require

RULE = ('Lists of 1 to 10 probabilities, as exact fractions (compared exactly when the answer is exact) and as floating point numbers, with zeros and '
        'ones. Union: one minus the product of the complements; intersection: the product. Non-trivial: three events or '
        'more, none of them impossible nor sure.')

exact = st.lists(st.tuples(st.integers(0, 12), st.integers(1, 12)).map(lambda t: [min(t), max(t)]), min_size=1, max_size=10)
floats = st.lists(st.one_of(st.integers(1, 9999).map(lambda x: x / 10000), st.integers(1, 999).map(lambda x: x / 1000), st.floats(0, 1, allow_nan=False)), min_size=1, max_size=10)


def want(ps):
    union, inter = 1, 1
    for p in ps:
        union *= 1 - p
        inter *= p
    return 1 - union, inter


def tolerance(*got):
    """Exact answers are judged exactly; a floating point answer to exact probabilities is only as good as its arithmetic"""
    return 0 if all(isinstance(x, (int, Fraction)) for x in got) else 1e-9


def near(got, expected, what):
    require(abs(got - expected) <= tolerance(got, expected), '{}: {!r}, expected {!r}', what, got, expected)


def check_exact(ctx, case):
    from semantic_codec.probability.probabilities import indep_events_union, indep_intersection
    ps = [Fraction(a, b) for a, b in case]
    union, inter = want(ps)
    near(indep_events_union(ps), union, 'union of {}'.format(case))
    near(indep_intersection(ps), inter, 'intersection of {}'.format(case))
    equal(ps, [Fraction(a, b) for a, b in case], 'probabilities given')
    ctx.label('{} events'.format(len(ps)))
    return len(ps) > 2 and all(0 < p < 1 for p in ps)


def check_floats(ctx, ps):
    from semantic_codec.probability.probabilities import indep_events_union, indep_intersection
    union, inter = want(ps)
    got = indep_events_union(list(ps)), indep_intersection(list(ps))
    require(abs(got[0] - union) < 1e-9, 'union of {}: {!r}, expected {!r}', ps, got[0], union)
    require(abs(got[1] - inter) < 1e-9, 'intersection of {}: {!r}, expected {!r}', ps, got[1], inter)
    return len(ps) > 2 and all(0 < p < 1 for p in ps)


def check_laws(ctx, case):
    """More events: a larger union, a smaller intersection, in any order"""
    from semantic_codec.probability.probabilities import indep_events_union, indep_intersection
    ps, more, k = [Fraction(a, b) for a, b in case[0]], Fraction(*case[1]), case[2]
    union, inter, union_more, inter_more = [f(x) for x in (ps, ps + [more]) for f in (indep_events_union, indep_intersection)]
    require(union_more >= union - tolerance(union, union_more), 'the union of more events is less likely')
    require(inter_more <= inter + tolerance(inter, inter_more), 'the intersection of more events is more likely')
    k %= len(ps)
    near(indep_events_union(ps[k:] + ps[:k]), union, 'union in other order')
    near(indep_intersection(ps[k:] + ps[:k]), inter, 'intersection in other order')
    raises(lambda: indep_events_union([]), 'union of no events')
    return len(ps) > 2


def check_uniform(ctx, case):
    from semantic_codec.probability.probabilities import uniform
    a, w = case
    p = uniform(a, a + w)
    require(abs(p * w - 1) < 1e-9, 'uniform({}, {}) = {}', a, a + w, p)
    return w > 1


SUBS = [
    Sub('exact', check_exact, lambda: exact, quick=800, thorough=8000),
    Sub('floats', check_floats, lambda: floats, quick=800, thorough=8000),
    Sub('laws', check_laws, lambda: st.tuples(exact.filter(lambda x: len(x) < 9), exact.map(lambda x: x[0]), st.integers(0, 9)),
        quick=400, thorough=3000),
    Sub('uniform', check_uniform, lambda: st.tuples(st.integers(-50, 50), st.integers(1, 100)), quick=100, thorough=500),
]

"""C30: the discarding step removes the impossible candidates, and all but the sure ones when there are sure ones"""
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Sub, equal, require

RULE = ('Lists of 0 to 10 candidates (up to 700 in the crowds) with scores zero, one, near them or between, repeated, in any order; every pattern of '
        'up to 6 scores among zero, half and one. Non-trivial: some candidates are removed and some are kept.')


class Candidate(object):
    """What the step needs of an instruction: its score"""
    def __init__(self, k, s):
        self.k, self.s, self.ignore, self.encoding, self.address = k, s, False, k, 0x1000

    def score(self):
        return self.s


def judge(scores, v):
    import recover_program
    given = list(v)
    n = recover_program.remove_bad_candidates_at_addr(v)
    if len(scores) < 2:
        want = given
    elif 1 in scores:
        want = [i for i, s in zip(given, scores) if s == 1]
    else:
        want = [i for i, s in zip(given, scores) if s != 0]
    equal([given.index(i) for i in v], [given.index(i) for i in want], 'candidates kept of scores {}'.format(scores))
    equal(n, len(given) - len(want), 'amount removed of scores {}'.format(scores))
    if len(want) > 1 or len(scores) < 2:
        equal(recover_program.remove_bad_candidates_at_addr(v), 0, 'removed by a second step')
        equal(len(v), len(want), 'candidates kept by a second step')
    return 0 < n < len(given)


def check_all(ctx, scores):
    return judge(scores, [Candidate(k, s) for k, s in enumerate(scores)])


def patterns(tier):
    import itertools
    for n in range(0, 7 if tier == 'quick' else 9):
        for p in itertools.product([0, 0.5, 1], repeat=n):
            yield list(p)


def check(ctx, case):
    v = [gen.inst(e, 0x1000) for e, _ in case]
    for i, (_, s) in zip(v, case):
        i.scores_by_rule['x'] = s
    return judge([s for _, s in case], v)


@st.composite
def crowds(draw):
    import random
    n = draw(st.integers(11, 700))
    r = random.Random(draw(st.integers(0, 2 ** 32)))
    some = r.choice([[0, 0.5, 1], [0, 0.5], [0, 0.5, 0.25], [1, 0], [0.5] * 50 + [0], [0.5] * 200 + [1], [0] * 200 + [0.5], [0.5] * 400 + [0, 1]])
    return [r.choice(some) for _ in range(n)]


SCORE = st.one_of(st.sampled_from([0, 0, 1, 0.0, 1.0, 0.5, 1e-300, 1 - 2 ** -53]), st.floats(0, 1, allow_nan=False))
SUBS = [
    Sub('patterns', check_all, sweep=patterns),
    Sub('crowds', check_all, crowds, quick=60, thorough=600),
    Sub('candidates', check, lambda: st.lists(st.tuples(gen.any_word(), SCORE), max_size=10), quick=3200, thorough=10000),
]

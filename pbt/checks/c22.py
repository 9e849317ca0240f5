"""C22: the quality of a solution measures the space of programs that its candidates leave"""
import contextlib
import io
import math
import random
import re

from hypothesis import strategies as st

from pbt import gen
from pbt.core import Sub, equal, require

RULE = ('Programs of 1 to 40 addresses with 0 to 70 candidates each (counts; up to 1500 addresses or 1000 candidates in the long cases), and programs of up to 8 addresses with up to '
        '8 scored candidates (depth), where originals that are not instructions are not measured. The count is the product of the amounts of candidates, in exact arithmetic. '
        'Non-trivial: two addresses or more have several candidates.')


def check_counts(ctx, lens):
    from semantic_codec.solution.solution_quality import SolutionQuality
    one = gen.inst(0xe1a00000, 0)
    program = {4 * k: [one] * n for k, n in enumerate(lens)}
    count = 1
    for n in lens:
        count *= n
    bins = {}
    for n in lens:
        bins[n] = bins.get(n, 0) + 1
    q = SolutionQuality(program, [])
    first = [lambda: equal(q.solution_count, count, 'number of solutions'),
             lambda: equal({k: v for k, v in q.solution_count_bins.items()}, bins, 'addresses by amount of candidates'),
             lambda: size(q, lens, count)]
    # In any order of asking
    k = sum(lens) % 3
    for f in first[k:] + first[:k]:
        f()
    text = io.StringIO()
    with contextlib.redirect_stdout(text):
        q.report()
    told = [re.search(r'Solutions{}: {}'.format(*x), text.getvalue())
            for x in (('', r'.*?(\{.*\})'), (' size', '(.*)'), (' count', '(.*)'))]
    require(all(told), 'what the report tells: {!r}', text.getvalue())
    equal(eval(told[0].group(1)), bins, 'addresses by amount of candidates told')
    equal(float(told[1].group(1)), float(q.solution_size), 'size told')
    equal(int(told[2].group(1), 0), count, 'number of solutions told')
    ctx.label('no solutions' if count == 0 else 'huge' if count > 2 ** 64 else 'small')
    return sum(n > 1 for n in lens) > 1


def size(q, lens, count):
    want = sum(math.log2(n) for n in lens) if count else 0
    require(abs(q.solution_size - want) < 1e-6 * max(1, want), 'size of the solution {!r}, expected {!r}', q.solution_size, want)


SCORE = st.builds(lambda k, e: k / 8 * 10.0 ** -e, st.integers(0, 8), st.sampled_from([0, 1, 6, 9, 10, 12, 15]))


@st.composite
def scored(draw):
    n = draw(st.integers(1, 8))
    pool = draw(st.lists(st.one_of(*[gen.words(4)] * 5, gen.any_word()), min_size=1, max_size=4))
    result = []
    for a in draw(gen.addresses(n)):
        e = draw(st.sampled_from(pool))
        es = draw(st.lists(st.one_of(gen.words(4), gen.any_word(), st.integers(0, 16)), max_size=7, unique=True))
        es = draw(st.permutations([x for x in es if x != e and gen.text(x, a) != gen.text(e, a)] + [e]))
        # Scores equal, far from each other, or as near and small as products of probabilities are
        scores = [draw(st.one_of(st.integers(0, 3), SCORE)) for _ in es]
        if draw(st.integers(0, 11)) == 0:
            es, scores = [], []
        result.append([a, e, es, scores])
    return result


def places(e, scored):
    """
    The least and greatest relative place that the original may have by its score, and the amount of candidates
    """
    if not scored:
        return 0, 0, 0
    s = max(s for x, s in scored if x == e)
    better, ties = sum(x > s for _, x in scored), sum(x == s for _, x in scored)
    # How the candidates having the same score are ordered is not promised
    return (better + 1) / len(scored), (better + ties) / len(scored), len(scored)


def judge(text, depth, ranges, when):
    """
    What is told: the worst place of an original, for each amount of candidates, and where it is
    """
    told = [re.search(r'Highest Depth {} > {}'.format(*x), text)
            for x in (('at address', '(.*)'), ('at address bin', r'.*?(\{.*\})'), ('bin', r'.*?(\{.*\})'))]
    require(all(told), 'what the evaluation tells: {!r}', text)
    told = [eval(x.group(1)) for x in told]
    equal(sorted(told[2]), sorted({n for _, _, n in ranges.values()}), 'amounts of candidates told' + when)
    for n in told[2]:
        least = max(x for x, _, m in ranges.values() if m == n)
        most = max(x for _, x, m in ranges.values() if m == n)
        require(least - 1e-9 <= told[2][n] <= most + 1e-9, 'highest depth of the addresses with {} candidates{} {!r}, expected {!r} to {!r}',
                n, when, told[2][n], least, most)
        if n:
            x = ranges.get(told[1].get(n))
            require(x and x[2] == n and x[0] - 1e-9 <= told[2][n] <= x[1] + 1e-9, 'address told for {} candidates{}: {!r}', n, when, told[1].get(n))
    if any(n for _, _, n in ranges.values()):
        x = ranges.get(told[0])
        require(x and x[2] and x[0] - 1e-9 <= depth <= x[1] + 1e-9, 'address told of the highest depth {!r}{}: {:#x}', depth, when, told[0])
    low, high = max((x for x, _, _ in ranges.values()), default=0), max((x for _, x, _ in ranges.values()), default=0)
    require(low - 1e-9 <= depth <= high + 1e-9, 'highest depth {!r}{}, expected {!r} to {!r}', depth, when, low, high)


def check_depth(ctx, case):
    from semantic_codec.solution.solution_quality import SolutionQuality
    program = gen.program([[a, es] for a, _, es, _ in case])
    for a, e, es, scores in case:
        for i, s in zip(program[a], scores):
            i.scores_by_rule['x'] = s
    original = [gen.inst(e, a) for a, e, _, _ in case]
    q = SolutionQuality(program, original)
    text = io.StringIO()
    with contextlib.redirect_stdout(text):
        depth = q.highest_depth
    ranges, several = {}, 0
    for (a, e, es, scores), ori in zip(case, original):
        equal(sorted(i.encoding for i in program[a]), sorted(es), 'candidates at {:#x}'.format(a))
        # Originals that are not instructions are not measured
        if not ori.is_undefined:
            got = [i.score() for i in program[a]]
            equal(got, sorted(scores, reverse=True), 'scores at {:#x}, from best to worst'.format(a))
            ranges[a] = places(e, list(zip(es, scores)))
            several += len(es) > 1
    judge(text.getvalue(), depth, ranges, '')
    lens = [len(es) for _, _, es, _ in case]
    count = 1
    for n in lens:
        count *= n
    equal(q.solution_count, count, 'number of solutions')
    # Evaluating again once the worst candidate of some addresses is discarded
    left, count = [], 1
    again = []
    for (a, e, es, _), k in zip(case, range(len(case))):
        v = program[a]
        if len(v) > 1 and k % 2 == 0 and v[-1].encoding != e:
            v.pop()
        left.append(len(v))
        count *= len(v)
        # And the scores changed since
        for i in v:
            i.scores_by_rule['x'] = (i.encoding * (k + 3) + k) % 5 + (10 if i.encoding == e and k % 3 else 0)
        again.append((e, v))
    text = io.StringIO()
    with contextlib.redirect_stdout(text):
        q.evaluate()
    judge(text.getvalue(), q.highest_depth, {ori.address: places(e, [(i.encoding, i.score()) for i in v])
                                             for (e, v), ori in zip(again, original) if not ori.is_undefined}, ' evaluated again')
    equal(q.solution_count, count, 'number of solutions evaluated again')
    equal({k: n for k, n in q.solution_count_bins.items()}, {k: left.count(k) for k in left}, 'addresses by amount of candidates evaluated again')
    return several > 1


@st.composite
def long_counts(draw):
    n = draw(st.one_of(st.integers(1, 60), st.integers(1, 1500)))
    r = random.Random(draw(st.integers(0, 2 ** 32)))
    # As many as the words that lose up to 16 bits have, if there are few addresses
    most = r.choice([2, 8, 70000 if n < 20 else 5000 if n < 60 else 100])
    return [r.randint(1 if k else int(r.random() < 0.9), most) for k in range(n)]


SUBS = [
    Sub('counts', check_counts, lambda: st.lists(st.one_of(st.integers(1, 5), st.integers(0, 70), st.sampled_from(
        [1, 2, 4, 8, 16, 32])), min_size=1, max_size=40), quick=3750, thorough=30000),
    Sub('counts-long', check_counts, long_counts, quick=40, thorough=600),
    Sub('depth', check_depth, scored, quick=625, thorough=5000),
]

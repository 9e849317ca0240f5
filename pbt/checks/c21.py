"""C21: a solution file keeps the candidates of every address up to the original"""
import os
import random

from hypothesis import strategies as st

from pbt import gen
from pbt.core import Sub, equal, raises, require

RULE = ('Programs of 0 to 12 addresses in any order with up to 9 candidates (in the long cases, 300 addresses or 9000 candidates) of any value, repeated or not, given with the '
        'original program as a list or as a dictionary; written files cut at any byte or with the first word changed; '
        'candidates lists without the original. Non-trivial: some address has candidates before and after the original '
        '(round trip), or any rejection.')


@st.composite
def cases(draw):
    n = draw(st.integers(0, 12))
    result = []
    ads = draw(st.lists(st.one_of(st.integers(0, 0x3fffffff).map(lambda x: x * 4), st.just(0xfffffffc)), min_size=n, max_size=n, unique=True))
    for a in ads:
        es = draw(st.lists(gen.U32, max_size=8))
        e = draw(gen.any_word())
        result.append([a, e, draw(st.permutations(es + [e]))])
    return result


@st.composite
def long_cases(draw):
    """Many addresses, or many candidates"""
    many = draw(st.booleans())
    most = 3 if many else draw(st.sampled_from([600, 600, 9000]))
    prog = draw(gen.long_program(1, 300 if many else 12 if most == 600 else 2))
    r = random.Random(draw(st.integers(0, 2 ** 32)))
    result = []
    for a, e in prog:
        es = [r.getrandbits(32) for _ in range(r.randint(0, most))]
        es.insert(r.choice([len(es), r.randint(0, len(es))]), e)
        result.append([a, e, es])
    return result


def write(case, as_list, extra=()):
    from semantic_codec.solution.solution_io import SolutionWriter
    program = gen.program([[a, es] for a, _, es in case])
    original = [gen.inst(e, a) for a, e, _ in list(case) + list(extra)]
    if not as_list:
        original = {i.address: [i] for i in original}
    SolutionWriter().write_binary('s.sol', original, program)
    return program


def check(ctx, case):
    from semantic_codec.solution.solution_io import SolutionReader
    case, as_list, extra = case
    program = write(case, as_list, [[a, e, None] for a, e in extra if a not in [c[0] for c in case]])
    equal(gen.encodings(program), {a: es for a, _, es in case}, 'program after writing')
    original, got = SolutionReader().read('s.sol')
    equal(list(got), [a for a, _, _ in case], 'addresses read')
    equal(sorted(original), sorted(got), 'addresses of the original read')
    rich = False
    for a, e, es in case:
        want = es[:es.index(e) + 1]
        equal([i.encoding for i in got[a]], want, 'candidates read at {:#x}'.format(a))
        equal([i.encoding for i in original[a]], [e], 'original read at {:#x}'.format(a))
        equal([i.address for i in got[a] + original[a]], [a] * (len(want) + 1), 'addresses of the instructions read')
        rich |= 1 < len(want) < len(es)
    # Magic word, addresses and candidates: nothing else
    size = 8 + 4 + sum(8 + 4 * (es.index(e) + 1) for _, e, es in case)
    equal(os.path.getsize('s.sol'), size, 'size of the file')
    # What was read can be written again
    from semantic_codec.solution.solution_io import SolutionWriter
    SolutionWriter().write_binary('t.sol', original, got)
    equal(open('t.sol', 'rb').read(), open('s.sol', 'rb').read(), 'file written from what was read')
    return rich


def check_rejects(ctx, case):
    from semantic_codec.solution.solution_io import SolutionReader
    case, how, k = case
    write(case, True)
    data = open('s.sol', 'rb').read()
    if how == 'cut':
        bad = data[:k % len(data)]
    else:
        bad = bytearray(data)
        bad[k % 8] ^= 1 << (k // 8 % 8)
    with open('bad.sol', 'wb') as f:
        f.write(bad)
    raises(lambda: SolutionReader().read('bad.sol'), 'file {}'.format('cut to {} bytes'.format(len(bad)) if how == 'cut'
                                                                     else 'with other magic word'))
    ctx.label(how)
    return True


def check_missing(ctx, case):
    case, k = case
    bad = case[k % len(case)]
    bad[2] = [e for e in bad[2] if e != bad[1]]
    raises(lambda: write(case, True), 'candidates without the original')
    ctx.label('no candidates' if not bad[2] else 'other candidates')
    return True


K = st.integers(0, 10 ** 4)
SUBS = [
    Sub('round-trip', check, lambda: st.tuples(cases(), st.booleans(), st.lists(st.tuples(
        st.integers(0, 0xffff).map(lambda x: x * 4), gen.any_word()), max_size=2)), quick=400, thorough=8000),
    Sub('round-trip-long', check, lambda: st.tuples(long_cases(), st.booleans(), st.just([])), quick=15, thorough=200),
    Sub('rejects', check_rejects, lambda: st.tuples(cases(), st.sampled_from(['cut', 'magic']), K), quick=250, thorough=4000),
    Sub('missing-original', check_missing, lambda: st.tuples(cases().filter(len), K), quick=150, thorough=1500),
]

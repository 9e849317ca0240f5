"""C10: simulated random damage is what was asked for"""
import math
import random
from fractions import Fraction

from hypothesis import strategies as st

from pbt import gen
from pbt.core import Sub, equal, raises, require

RULE = ('Programs of 1 to 40 words (up to 1200 in the long cases) at contiguous or scattered addresses, percentages of 0 to 100, up to 6 damaged bits '
        'per word, any seed of the random numbers. Non-trivial: some words are damaged and some are not, or a word has '
        'two damaged bits or more.')


@st.composite
def cases(draw, long=False):
    if long == 'huge':
        pairs = draw(gen.long_program(500, 1200))
        return [[list(x) for x in pairs], draw(st.sampled_from([100, 97.5, 60])), draw(st.integers(0, 2)), draw(st.integers(0, 2 ** 20))]
    if long:
        pairs = draw(gen.long_program(1, 400))
    else:
        n = draw(st.integers(1, 40))
        addrs = draw(gen.addresses(n))
        words = draw(st.lists(gen.any_word(), min_size=n, max_size=n))
        pairs = draw(st.permutations(list(zip(addrs, words))))
    percent = draw(st.one_of(st.sampled_from([0, 100]), st.integers(0, 100), st.sampled_from([0, 100, 50, 0.5, 12.5, 33.3]),
                             st.floats(0, 100, allow_nan=False)))
    return [list(pairs), percent, draw(st.one_of(st.sampled_from([0, 1]), st.integers(0, 5))), draw(st.integers(0, 2 ** 20))]


def span(masks):
    """The masks are all the combinations of some bits"""
    union = 0
    for m in masks:
        union |= m
    return sorted(masks) == sorted(gen.submasks(union)), bin(union).count('1')


def amount_wanted(n, percent):
    return max(1, math.ceil(Fraction(percent) * n / 100))


def check(ctx, case):
    from semantic_codec.corruption.corruption import corrupt_program
    from semantic_codec.corruption.corruptors import RandomCorruptor
    words, percent, most, seed = case
    program = gen.program([[a, [e]] for a, e in words])
    random.seed(seed)
    if seed % 2:
        corrupt_program(program, percent, most)
    else:
        c = RandomCorruptor(percent, most, False)
        equal(c.corrupt(program) is program, True, 'the program damaged is returned')
    equal(sorted(program), sorted(a for a, _ in words), 'addresses')
    damaged, several = 0, False
    for a, e in words:
        v = program[a]
        equal(v[0].encoding, e, 'first candidate at {:#x}'.format(a))
        for i in v:
            equal(i.address, a, 'address of a candidate')
        if len(v) > 1:
            damaged += 1
            ok, bits = span([i.encoding ^ e for i in v])
            require(ok, 'the candidates at {:#x} are not all the combinations of some bits: {!r}', a,
                    [hex(i.encoding) for i in v])
            require(1 <= bits <= max(1, most), '{} damaged bits at {:#x}, up to {} were asked for', bits, a, most)
            several |= bits > 1
    want = amount_wanted(len(words), percent)
    # The percentage is a float
    require(abs(damaged - want) <= 1 if Fraction(percent).denominator != 1 or percent * len(words) % 100 == 0 else
            damaged == want, '{} words damaged, {}% of {} are {}', damaged, percent, len(words), want)
    require(damaged >= 1, 'nothing damaged')
    ctx.label('all' if damaged == len(words) else 'one' if damaged == 1 else 'some')
    return 0 < damaged < len(words) or several


def check_bad(ctx, case):
    from semantic_codec.corruption.corruption import corrupt_program
    words, percent = case
    program = gen.program([[0x1000 + 4 * k, [e]] for k, e in enumerate(words)])
    raises(lambda: corrupt_program(program, percent, 2), '{}% of damage'.format(percent))
    return True


@st.composite
def field_cases(draw):
    flags = draw(st.sampled_from([[1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 0], [1, 0, 1], [0, 1, 1], [1, 1, 1]]))
    return [draw(gen.words()), flags, draw(st.integers(0, 4)), draw(st.integers(0, 2 ** 20))]


def check_fields(ctx, case):
    from semantic_codec.corruption.corruption import corrupt_instruction
    word, (cond, regs, op), amount, seed = case
    original = gen.inst(word, 0x1000)
    program = {0x1000: [original], 0x1004: [gen.inst(word, 0x1004)]}
    random.seed(seed)
    options = {'conditional': bool(cond), 'registers': bool(regs), 'opcode': bool(op), 'amount': amount}
    if seed % 3 == 0:
        # Only the condition, and two bits, unless told otherwise
        options = {k: v for k, v in options.items() if v != {'conditional': True, 'registers': False, 'opcode': False, 'amount': 2}[k]}
    result = corrupt_instruction(program, original, 0x1000, **options)
    equal([i.encoding for i in program[0x1004]], [word], 'other word')
    got = [i.encoding for i in program[0x1000]]
    equal([i.encoding for i in result], got, 'candidates returned')
    equal(got[0], word, 'first candidate')
    equal(len(set(got)), len(got), 'different candidates')
    allowed = (0xf0000000 if cond else 0) | (0x7ff if regs else 0) | (0x0ff00000 if op else 0)
    for e in got[1:]:
        m = e ^ word
        require(m & ~allowed == 0, 'candidate {:#x} changes bits of fields that were not damaged', e)
        require(bin(m).count('1') <= amount, 'candidate {:#x} changes more than {} bits', e, amount)
        require(gen.decodable(e), 'candidate {:#x} is not an instruction', e)
    return len(got) > 1


def check_distribute(ctx, case):
    from semantic_codec.corruption.corruption import distribute_random_amount
    amount, bins, seed = case
    random.seed(seed)
    got = distribute_random_amount(amount, bins)
    equal(len(got), bins, 'parts')
    require(all(0 <= x <= amount for x in got) and sum(got) <= amount, '{} distributed as {!r}', amount, got)
    return bins > 1 and amount > 1


SUBS = [
    Sub('programs', check, cases, quick=1400, thorough=10000),
    Sub('programs-long', check, lambda: cases(long=True), quick=40, thorough=500),
    Sub('programs-huge', check, lambda: cases(long='huge'), quick=8, thorough=80),
    Sub('percents', check_bad, lambda: st.tuples(st.lists(gen.words(), min_size=1, max_size=5), st.one_of(
        st.integers(-100, -1), st.integers(101, 500), st.sampled_from([100.5, -0.5]))), quick=120, thorough=500),
    Sub('fields', check_fields, field_cases, quick=1400, thorough=10000),
    Sub('distribution', check_distribute, lambda: st.tuples(st.integers(0, 20), st.integers(1, 5), st.integers(0, 2 ** 20)),
        quick=600, thorough=3000),
]

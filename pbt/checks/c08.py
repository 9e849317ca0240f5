"""C08: enumerating the words damage could have come from is exact"""
import random

from hypothesis import strategies as st

from pbt import gen
from pbt.core import Sub, equal, require

RULE = ('Any 32 bit word; ranges of up to 10 bits anywhere, sets of disjoint ranges of up to 12 bits in total, and '
        'random picks inside of a field. Non-trivial: at least two bits are enumerated.')


def expected(word, mask):
    return sorted(word ^ m for m in gen.submasks(mask))


@st.composite
def ranges(draw, total=12):
    """Disjoint half open ranges of bits"""
    cuts = sorted(draw(st.sets(st.integers(0, 31), min_size=2, max_size=8)))
    result = []
    for a, b in zip(cuts[::2], cuts[1::2]):
        b = min(b, a + total)
        if a < b:
            result.append([a, b])
            total -= b - a
    return draw(st.permutations(result))


def check_range(ctx, case):
    from semantic_codec.corruption.corruption import corrupt_all_bits
    word, lo, n = case
    hi = min(32, lo + n)
    got = corrupt_all_bits(lo, hi, word)
    equal(sorted(got), expected(word, (1 << hi) - (1 << lo)), 'words differing from {:#x} in bits {}..{}'.format(word, lo, hi - 1))
    return hi - lo > 1


def check_ranges(ctx, case):
    from semantic_codec.corruption.corruption import corrupt_all_bits_tuples
    word, rs = case
    got = corrupt_all_bits_tuples([tuple(r) for r in rs], word)
    mask = 0
    for a, b in rs:
        mask |= (1 << b) - (1 << a)
    equal(sorted(got), expected(word, mask), 'words differing from {:#x} in the ranges {}'.format(word, rs))
    ctx.label('{} ranges'.format(len(rs)))
    return bin(mask).count('1') > 1


FIELDS = {'corrupt_conditional': (31, 28), 'corrupt_registers': (10, 0), 'corrupt_opcode': (27, 20)}


@st.composite
def picks(draw):
    name = draw(st.sampled_from([''] * 3 + sorted(FIELDS)))
    if name:
        hi, lo = FIELDS[name]
    else:
        lo = draw(st.integers(0, 31))
        hi = draw(st.integers(lo, 31))
    amount = draw(st.integers(1, min(hi - lo + 1, 7)))
    return [draw(gen.edge_words()), name, hi, lo, amount, draw(st.integers(0, 2 ** 20))]


def check_picks(ctx, case):
    from semantic_codec.corruption import corruption
    word, name, hi, lo, amount, seed = case
    random.seed(seed)
    got = getattr(corruption, name)(amount, word) if name else corruption.corrupt_bits(hi, lo, amount, word)
    masks = [x ^ word for x in got]
    equal(len(got), 2 ** amount, 'words for {} damaged bits'.format(amount))
    equal(len(set(got)), 2 ** amount, 'different words for {} damaged bits'.format(amount))
    equal(got[0], word, 'first word')
    union = 0
    for m in masks:
        union |= m
    require(union >> lo << lo == union and union < 2 ** (hi + 1), 'bits out of {}..{} damaged: {:#x}', lo, hi, union)
    equal(bin(union).count('1'), amount, 'bits damaged')
    return amount > 1


def check_spread(ctx, case):
    """Every bit of the range can be picked"""
    from semantic_codec.corruption.corruption import corrupt_bits
    word, lo, width, amount, seed = case
    hi = min(31, lo + width - 1)
    random.seed(seed)
    seen = 0
    for _ in range(60 * (hi - lo + 1)):
        for x in corrupt_bits(hi, lo, min(amount, hi - lo + 1), word):
            seen |= x ^ word
    equal(seen, (1 << hi + 1) - (1 << lo), 'bits ever damaged in {}..{}'.format(lo, hi))
    return hi > lo


SUBS = [
    Sub('range', check_range, lambda: st.tuples(gen.edge_words(), st.integers(0, 31), st.integers(0, 10)), quick=1000, thorough=4000),
    Sub('ranges', check_ranges, lambda: st.tuples(gen.edge_words(), ranges()), quick=1250, thorough=5000),
    Sub('picks', check_picks, picks, quick=3750, thorough=20000),
    Sub('spread', check_spread, lambda: st.tuples(gen.U32, st.integers(0, 31), st.integers(1, 32), st.integers(1, 3),
                                                  st.integers(0, 1000)), quick=100, thorough=300),
]

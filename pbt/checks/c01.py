"""C01: the interleaving order is a permutation of the packets"""
from hypothesis import strategies as st

from pbt.core import Sub, equal, require

RULE = ('Packet counts: every count from 1 up to a bound (exhaustive), and the ones next to multiples of powers of 4 (swept), and '
        'drawn ones above the bound. Non-trivial: the count needs matrices of more than one size, or more than one matrix.')


def check(ctx, n):
    from semantic_codec.interleaver.interleaver2d import build_2d_interleave_sp
    flat = build_2d_interleave_sp(n, flat=True)
    rows = build_2d_interleave_sp(n)
    equal(len(flat), n, 'packets in the order of {}'.format(n))
    equal(sorted(flat), list(range(n)), 'packets in the order of {}'.format(n))
    equal([x for r in rows for x in r], list(flat), 'rows of the order of {}'.format(n))
    k = 1
    while k * 4 <= n:
        k *= 4
    ctx.label('power of 4' if k == n else 'mixed sizes')
    return n != k


def check_matrix(ctx, m):
    from semantic_codec.interleaver.interleaver2d import sucesive_packing
    rows = sucesive_packing(m)
    equal(len(rows), 2 ** m, 'rows')
    for r in rows:
        equal(len(r), 2 ** m, 'columns')
    equal(sorted(x for r in rows for x in r), list(range(4 ** m)), 'packets in the matrix of order {}'.format(m))
    return m > 1


def near_powers(tier):
    for m in range(5, 8 if tier == 'quick' else 9):
        for k in (1, 2, 3):
            for d in (-1, 0, 1) if tier == 'quick' else (-3, -2, -1, 0, 1, 2, 3):
                if k * 4 ** m + d <= 17000 or tier != 'quick':
                    yield k * 4 ** m + d


def many(tier):
    """Counts beyond what 15, 16 and 17 bits hold"""
    for n in (32767, 32769, 49153, 65535, 65536, 65537, 70001, 131073):
        yield n
    if tier == 'thorough':
        for n in (98305, 131071, 196609, 262143, 262145, 300007, 524289, 1048577):
            yield n


SUBS = [
    Sub('every-count', check, sweep=lambda tier: range(1, 701 if tier == 'quick' else 6001)),
    Sub('near-powers', check, sweep=near_powers),
    Sub('matrix', check_matrix, sweep=lambda tier: range(0, 9 if tier == 'quick' else 11)),
    Sub('many', check, sweep=many),
    Sub('large-counts', check, lambda: st.integers(701, 20000), quick=40, thorough=600),
]

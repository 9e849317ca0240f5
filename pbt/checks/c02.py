"""C02: successive packing spreads bursts of consecutive packets"""
from hypothesis import strategies as st

from pbt.core import Sub, equal, require

RULE = ('Square orders of 4^m packets: every m up to a bound, every aligned run of every power of 4. Other counts: all '
        'up to a bound and drawn ones, against a reference built from the recursive definition. Non-trivial: at least '
        'a 4x4 matrix is needed (a run inside a block is possible), or several matrices.')


def reference_matrix(m):
    """Successive packing by its recursive definition"""
    if m == 0:
        return [[0]]
    s = reference_matrix(m - 1)
    w = len(s)
    quadrant = {(0, 0): 0, (0, 1): 2, (1, 0): 3, (1, 1): 1}
    return [[4 * s[i % w][j % w] + quadrant[i // w, j // w] for j in range(2 * w)] for i in range(2 * w)]


def reference_order(n):
    matrices, base = [], 0
    while base < n:
        m = 0
        while 4 ** (m + 1) <= n - base:
            m += 1
        matrices.append([[x + base for x in row] for row in reference_matrix(m)])
        base += 4 ** m
    result = []
    for r in range(max(len(x) for x in matrices)):
        for x in matrices:
            if r < len(x):
                result.extend(x[r])
    return result


def check_dispersion(ctx, case):
    from semantic_codec.interleaver.interleaver2d import build_2d_interleave_sp, sucesive_packing
    m, built = case
    rows = build_2d_interleave_sp(4 ** m) if built else sucesive_packing(m)
    side = 2 ** m
    place = {}
    for i, r in enumerate(rows):
        for j, p in enumerate(r):
            place[int(p)] = (i, j)
    equal(len(place), 4 ** m, 'packets of the square order')
    for k in range(1, m + 1):
        block = side // 2 ** k
        for first in range(0, 4 ** m, 4 ** k):
            blocks = set()
            for p in range(first, first + 4 ** k):
                i, j = place[p]
                blocks.add((i // block, j // block))
            require(len(blocks) == 4 ** k, 'packets {}..{} of {} share a block of side {}',
                    first, first + 4 ** k - 1, 4 ** m, block)
    return m >= 2


def check_order(ctx, n):
    from semantic_codec.interleaver.interleaver2d import build_2d_interleave_sp
    equal([int(x) for x in build_2d_interleave_sp(n, flat=True)], reference_order(n), 'order of {} packets'.format(n))
    return n > 4


SUBS = [
    Sub('dispersion', check_dispersion,
        sweep=lambda tier: [[m, b] for m in range(0, 6 if tier == 'quick' else 8) for b in (False, True)]),
    Sub('every-count', check_order, sweep=lambda tier: range(1, 401 if tier == 'quick' else 4200)),
    Sub('large-counts', check_order, lambda: st.integers(401, 9000), quick=120, thorough=500),
]

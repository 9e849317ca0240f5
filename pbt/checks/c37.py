"""C37: the packets of a cluster of errors are different in the interleaving for clusters"""
from hypothesis import strategies as st

from pbt.core import Sub, equal, require

RULE = ('Matrices of up to 40 by 40 cells (and up to 70000 high) for (t^2 + 1) / 2 packets with t odd, with their width and height '
        'given or only one of them, and clusters of t cells that grow from any cell. Non-trivial: a packet is in two cells.')
ASSUMPTIONS = ['Only amounts of packets (t^2 + 1) / 2 with t odd, that the results the matrix is based on give for clusters of t cells.']


def near(matrix, t):
    """Two cells of the same packet less than t steps apart"""
    height, width = len(matrix), len(matrix[0])
    for dy in range(0, t):
        for dx in range(-(t - 1 - dy), t - dy):
            if dy == 0 and dx <= 0:
                continue
            for y in range(height - dy):
                above, below = matrix[y], matrix[y + dy]
                for x in range(max(0, -dx), min(width, width - dx)):
                    if above[x] == below[x + dx]:
                        return (x, y), (x + dx, y + dy)
    return None


def check(ctx, case):
    from semantic_codec.interleaver.interleaver2d import build_2d_interleave_matrix_blaum
    t, size, width, height, given, growth = case
    m = (t * t + 1) // 2
    message = m * size
    if given == 'both':
        matrix = build_2d_interleave_matrix_blaum(message, size, width, height)
    else:
        # A width that divides the message gives the height of it, and the other way around
        divisors = [d for d in range(1, 200) if message % d == 0 and message // d < 200]
        if not divisors:
            given = 'both'
            matrix = build_2d_interleave_matrix_blaum(message, size, width, height)
        else:
            width = divisors[width % len(divisors)]
            height = message // width
            matrix = (build_2d_interleave_matrix_blaum(message, size, data_width=width) if given == 'width'
                      else build_2d_interleave_matrix_blaum(message, size, data_height=height))
    equal([len(matrix), sorted({len(r) for r in matrix})], [height, [width]], 'height and widths of the matrix')
    cells = [x for r in matrix for x in r]
    for x in cells:
        require(x == int(x) and 0 <= x < m, 'packet {!r} of {}', x, m)
    if width >= m:
        for r in matrix:
            equal(len({int(x) for x in r[:m]}), m, 'packets in a row of as many cells')
    found = near(matrix, t)
    require(not found, 'packet in cells {}, that are less than {} steps apart', found, t)
    # Losing any cluster of t cells looses t packets once
    x, y = growth[0] % width, growth[1] % height
    cluster = [(x, y)]
    for g in growth[2:]:
        if len(cluster) == t:
            break
        a, b = cluster[g // 4 % len(cluster)]
        a, b = a + (1, -1, 0, 0)[g % 4], b + (0, 0, 1, -1)[g % 4]
        if 0 <= a < width and 0 <= b < height and (a, b) not in cluster:
            cluster.append((a, b))
    equal(len({int(matrix[b][a]) for a, b in cluster}), len(cluster), 'packets in the cluster {}'.format(cluster))
    ctx.label(given)
    return len(cells) > m


def cases(t, side):
    return st.tuples(st.integers(0, t).map(lambda k: 2 * k + 1), st.integers(1, 32), st.integers(1, side), st.integers(1, side),
                     st.sampled_from(['both', 'both', 'width', 'height']), st.lists(st.integers(0, 400), min_size=2, max_size=60))


def check_none(ctx, case):
    from semantic_codec.interleaver.interleaver2d import build_2d_interleave_matrix_blaum
    try:
        build_2d_interleave_matrix_blaum(*case)
    except Exception:
        return True
    require(False, 'neither the width nor the height are given, and it is not rejected')


SUBS = [
    Sub('clusters', check, lambda: cases(7, 40), quick=150, thorough=3000),
    Sub('large', check, lambda: cases(15, 70), quick=20, thorough=400),
    Sub('tall', check, lambda: st.tuples(st.sampled_from([3, 5, 5, 7]), st.integers(1, 32), st.integers(1, 5), st.sampled_from(
        [5000, 16400, 40000, 70000]), st.just('both'), st.tuples(st.integers(0, 5), st.integers(0, 80000)).map(list)), quick=3, thorough=20),
    Sub('no-size', check_none, lambda: st.tuples(st.integers(1, 400), st.integers(1, 40)), quick=20, thorough=100),
]

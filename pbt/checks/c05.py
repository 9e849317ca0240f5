"""C05: the damage predicted for lost packets is the damage they cause"""
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Sub, equal, require

RULE = ('Chunk sizes dividing 32, built or arbitrary orders, any set of lost packets, data of 1 to 30 words (up to 600 in the long cases). The '
        'prediction is compared with the chunks that the order gives to those packets, and with the chunks deinterleave '
        'reports. Non-trivial: some lost packet carries data.')
FINDING = 'bit31'


@st.composite
def cases(draw, long=False):
    size = draw(st.sampled_from(gen.DIVISORS))
    order = draw(gen.orders(hi=150 if long else 40))
    n = gen.order_size(order)
    lost = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=min(n, 6), unique=True))
    return [size, order, draw(st.integers(1, 600 if long else 30)), lost]


def compare(ctx, errors, slots, size):
    errors = [tuple(int(x) for x in e) for e in errors]
    equal(len(errors), len(set(errors)), 'predictions repeated in {!r}: amount'.format(errors))
    left = set(errors)
    expected = set(slots)
    for w, b in slots:
        if b + size == 32 and (w, b) not in left and (w, b, size) not in left:
            # Listed finding: the slots ending a word are predicted one bit late
            if (w, b, 31 - b) in left and (w + 1, 0, 1) in left:
                ctx.known(FINDING, 'the slot ({}, {}) of {} bits is predicted as {}'.format(
                    w, b, size, [(w, b, 31 - b), (w + 1, 0, 1)]))
                left -= {(w, b, 31 - b), (w + 1, 0, 1)}
                expected.discard((w, b))
    equal(sorted((e[:2] if len(e) == 3 and e[2] == size else e) for e in left), sorted(expected),
          'damage predicted (slots of {} bits)'.format(size))


def check(ctx, case):
    from semantic_codec.corruption.corruption import predict_corruption
    size, o, words, lost_at = case
    order = gen.make_order(o)
    lost = [int(order[k]) for k in lost_at]
    slots = gen.lost_chunks(order, lost, size, words)
    given = list(lost)
    errors = predict_corruption(len(order), size, words, order, lost)
    equal(lost, given, 'packets lost after the prediction')
    compare(ctx, errors, slots, size)
    ctx.label('several lost' if len(lost) > 1 else 'one lost')
    return bool(slots)


def check_real(ctx, case):
    """The same against a real loss"""
    from semantic_codec.corruption.corruption import predict_corruption
    from semantic_codec.interleaver.interleaver2d import interleave, deinterleave
    size, o, words, lost_at = case
    order = gen.make_order(o)
    lost = [int(order[k]) for k in lost_at]
    packets = interleave([0xffffffff] * words, order, size)
    if len(lost) == len(order):
        lost = lost[:-1]
    for p in lost:
        packets[p] = None
    per = 32 // size
    if not lost or all(order[c % len(order)] in lost for c in range(words * per)):
        return False
    data, _ = deinterleave(packets, order, size)
    data = (list(data) + [0] * words)[:words]
    # The bits that did not arrive
    slots = [(c // per, c % per * size) for c in range(words * per)
             if data[c // per] >> (c % per * size) & (2 ** size - 1) == 0]
    compare(ctx, predict_corruption(len(order), size, words, order, lost), slots, size)
    return bool(slots)


SUBS = [
    # Shows the listed finding in every run
    Sub('pinned', check, sweep=lambda tier: [[8, [0, 1, 2, 3], 2, [3]]]),
    Sub('prediction', check, cases, quick=3750, thorough=20000),
    Sub('against-loss', check_real, cases, quick=1750, thorough=8000),
    Sub('prediction-long', check, lambda: cases(long=True), quick=100, thorough=800),
    Sub('against-loss-long', check_real, lambda: cases(long=True), quick=40, thorough=400),
]

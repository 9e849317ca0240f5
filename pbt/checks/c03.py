"""C03: what is interleaved and received without losses is the data that was sent"""
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Sub, equal, require

RULE = ('Data of 1 to 40 words (up to 500 in the long cases), chunk sizes dividing 32, orders built by the library or arbitrary permutations and '
        'labels, more or less packets than chunks. Non-trivial: at least two packets, and the data has at least two '
        'chunks.')


@st.composite
def cases(draw, big=False, long=False):
    size = draw(st.sampled_from(gen.DIVISORS))
    order = draw(gen.orders(hi=150 if long else 80 if big else 24))
    data = draw(gen.many_words(1, 500, edge=True) if long else st.lists(gen.U32, min_size=1, max_size=40))
    return [size, order, data]


def check(ctx, case):
    from semantic_codec.interleaver.interleaver2d import interleave, deinterleave
    size, o, data = case
    order = gen.make_order(o)
    sent = list(data)
    packets = interleave(data, order, size)
    equal(data, sent, 'data after interleaving it')
    equal(sorted(packets), sorted(order), 'packets')
    received, errors = deinterleave(packets, order, size)
    received = list(received)
    equal(received[:len(sent)], sent, 'received data')
    require(not any(received[len(sent):]), 'data received after the end: {!r}', received[len(sent):])
    equal(list(errors), [], 'errors without losses')
    chunks = len(sent) * 32 // size
    n = len(order)
    ctx.label('less chunks than packets' if chunks < n else 'partial pass' if chunks % n else 'whole passes')
    return n > 1 and chunks > 1


def check_split(ctx, case):
    """Each packet carries, in order, the chunks of its turn"""
    from semantic_codec.interleaver.interleaver2d import interleave
    size, o, data = case
    order = gen.make_order(o)
    packets = interleave(data, order, size)
    per = 32 // size
    chunks = [data[c // per] >> (c % per * size) & (2 ** size - 1) for c in range(len(data) * per)]
    for k, p in enumerate(order):
        mine = chunks[k::len(order)]
        got = []
        while not packets[p].empty():
            require(len(got) < len(mine), 'packet {} carries more than its {} chunks', p, len(mine))
            got.append(packets[p].dequeue(0, 0))
        equal(got, mine, 'chunks of the packet {}'.format(p))
    return len(order) > 1 and len(chunks) > 1


SUBS = [
    Sub('round-trip', check, cases, quick=3600, thorough=15000),
    Sub('round-trip-many-packets', check, lambda: cases(big=True), quick=600, thorough=3000),
    Sub('packet-contents', check_split, cases, quick=1800, thorough=8000),
    Sub('round-trip-long', check, lambda: cases(long=True), quick=80, thorough=600),
    Sub('packet-contents-long', check_split, lambda: cases(long=True), quick=50, thorough=400),
]

"""C04: the damage of lost packets is located exactly, and confined to what they carried"""
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Sub, equal, raises, require

RULE = ('Data of 1 to 24 words (up to 400 in the long cases), chunk sizes dividing 32, built or arbitrary orders, any proper subset of the packets '
        'lost, either absent or None. Non-trivial: a lost packet carries data, and a received one too.')
ASSUMPTIONS = ['The receiver does not know the length of the data: slots of lost packets after the last chunk received '
               'may be reported or not, and the data is compared up to that chunk.']


@st.composite
def cases(draw, long=False):
    size = draw(st.sampled_from(gen.DIVISORS))
    order = draw(gen.orders(hi=100 if long else 20))
    n = gen.order_size(order)
    data = draw(gen.many_words(1, 400, edge=True) if long else st.lists(gen.U32, min_size=1, max_size=24))
    lost = draw(st.lists(st.integers(0, n - 1), max_size=max(0, n - 1), unique=True))
    return [size, order, data, sorted(lost), draw(st.booleans())]


def check(ctx, case):
    from semantic_codec.interleaver.interleaver2d import interleave, deinterleave
    size, o, data, lost_at, as_none = case
    order = gen.make_order(o)
    n = len(order)
    packets = interleave(data, order, size)
    for k in lost_at:
        if as_none:
            packets[order[k]] = None
        else:
            del packets[order[k]]
    per = 32 // size
    total = len(data) * per
    is_lost = [k in set(lost_at) for k in range(n)]
    arrived = [c for c in range(total) if not is_lost[c % n]]
    if not arrived:
        # Nothing of the data came
        ctx.label('nothing received')
        if len(lost_at) == n:
            raises(lambda: deinterleave(packets, order, size), 'losing all the packets')
        return False
    last = arrived[-1]
    received, errors = deinterleave(packets, order, size)
    received = list(received)
    slots = []
    for e in errors:
        require(len(e) == 2 and e[1] % size == 0 and 0 <= e[1] < 32, 'strange error {!r}', e)
        slots.append((e[0] * 32 + e[1]) // size)
    equal(len(slots), len(set(slots)), 'errors repeated in {!r}: amount'.format(list(errors)))
    equal(sorted(s for s in slots if s <= last), [c for c in range(last + 1) if is_lost[c % n]],
          'chunks reported as lost up to the last one received')
    for s in slots:
        require(is_lost[s % n], 'chunk {} was received but reported as lost', s)
    for c in range(last + 1):
        w, b = c // per, c % per * size
        require(w < len(received), 'word {} is missing', w)
        got = received[w] >> b & (2 ** size - 1)
        want = 0 if is_lost[c % n] else data[w] >> b & (2 ** size - 1)
        require(got == want, 'chunk {} (word {}, bit {}) is {:#x}, expected {:#x}', c, w, b, got, want)
    for w, b in [(c // per, c % per * size) for c in range(last + 1, len(received) * per)]:
        require(received[w] >> b & (2 ** size - 1) == 0, 'data after the last chunk received')
    first_lost = is_lost[0]
    ctx.label('first of the order lost' if first_lost else 'last of the order lost' if is_lost[-1] else
              'losses' if lost_at else 'no losses')
    return any(is_lost[c % n] for c in range(total))


def check_all_lost(ctx, case):
    from semantic_codec.interleaver.interleaver2d import interleave, deinterleave
    size, o, data, as_none = case
    order = gen.make_order(o)
    packets = {p: None for p in interleave(data, order, size)} if as_none else {}
    raises(lambda: deinterleave(packets, order, size), 'losing all the packets')
    return True


SUBS = [
    Sub('losses', check, cases, quick=4500, thorough=20000),
    Sub('losses-long', check, lambda: cases(long=True), quick=80, thorough=600),
    Sub('all-lost', check_all_lost, lambda: st.tuples(st.sampled_from(gen.DIVISORS), gen.orders(),
                                                      st.lists(gen.U32, min_size=1, max_size=5), st.booleans()),
        quick=180, thorough=300),
]

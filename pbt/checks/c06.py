"""C06: the bit queue is a FIFO of bits"""
import random

from hypothesis import strategies as st

from pbt import gen
from pbt.core import Sub, equal, require

RULE = ('Histories of up to 60 enqueues and dequeues (1200 in the long cases) with chunk sizes of 1 to 32 bits, changing in the history or not, '
        'any source and destination bit, never dequeuing more bits than queued but at the end; the model is a list of bits. '
        'Non-trivial: a chunk crosses the end of a 32 bit word when enqueued or dequeued.')


@st.composite
def cases(draw, fixed=False):
    one = draw(st.integers(1, 32)) if fixed else None
    ops, queued = [], 0
    for _ in range(draw(st.integers(1, 60))):
        size = one or draw(st.integers(1, 32))
        if queued >= size and draw(st.integers(0, 2)) == 0:
            ops.append(['out', size, draw(gen.U32), draw(st.integers(0, 32 - size))])
            queued -= size
        else:
            ops.append(['in', size, draw(gen.U32), draw(st.one_of(st.just(0), st.integers(0, 32 - size)))])
            queued += size
    return ops


@st.composite
def long_cases(draw):
    """Thousands of bits queued"""
    n = draw(st.integers(1, 1200))
    r = random.Random(draw(st.integers(0, 2 ** 32)))
    one = r.choice([None, None, 2, 7, 31, 32])
    out = r.choice([0.1, 0.4, 0.5])
    ops, queued = [], 0
    for _ in range(n):
        size = one or r.randint(1, 32)
        bit = r.randint(0, 32 - size)
        if queued >= size and r.random() < out:
            ops.append(['out', size, r.getrandbits(32), bit])
            queued -= size
        else:
            ops.append(['in', size, r.getrandbits(32), bit])
            queued += size
    return ops


@st.composite
def long_fillings(draw):
    return [[size, v, bit] for kind, size, v, bit in draw(long_cases()) if kind == 'in']


def check(ctx, ops):
    from semantic_codec.architecture.bits import BitQueue
    q, model, head, tail, crosses = BitQueue(ops[0][1]), [], 0, 0, False
    for kind, size, value, bit in ops:
        q.word_size = size
        if kind == 'in':
            q.enqueue(value, bit)
            model += [value >> (bit + i) & 1 for i in range(size)]
            crosses |= tail % 32 + size > 32
            tail += size
        else:
            got = q.dequeue(value, bit)
            want = value
            for i in range(size):
                want = want & ~(1 << (bit + i)) | model.pop(0) << (bit + i)
            equal(got, want, 'value after dequeuing {} bits into its bit {}'.format(size, bit))
            crosses |= head % 32 + size > 32
            head += size
        equal(bool(q.empty()), not model, 'emptiness with {} bits queued'.format(len(model)))
    # What is left comes out too, even when asking for more than there is at the end
    more = len(ops) * 5 % 32 + 1
    for size in (7, 1):
        if size == 1 and 0 < len(model) < more and len(ops) % 2:
            q.word_size = more
            left = sum(b << i for i, b in enumerate(model))
            try:
                got = q.dequeue(0, 0)
            except Exception:
                # Refused
                return crosses
            equal(got & (2 ** len(model) - 1), left, 'last {} bits, asking for {}'.format(len(model), more))
            require(q.empty(), 'the queue is not empty after asking for more than it has')
            ctx.label('more than there is')
            return crosses
        q.word_size = size
        while len(model) >= size:
            want = sum(model.pop(0) << i for i in range(size))
            equal(q.dequeue(0, 0), want, 'last bits')
    require(q.empty(), 'the queue is not empty after taking everything')
    ctx.label('crossing' if crosses else 'within words')
    return crosses


@st.composite
def fillings(draw):
    one = draw(st.sampled_from([None] + list(range(1, 33))))
    return [[size, draw(gen.U32), draw(st.one_of(st.just(0), st.integers(0, 32 - size)))]
            for size in ([one] * draw(st.integers(1, 60)) if one else draw(st.lists(st.integers(1, 32), min_size=1, max_size=20)))]


def check_bytes(ctx, case):
    """The words of a queue are its bits packed from the lowest one"""
    from semantic_codec.architecture.bits import BitQueue
    q = BitQueue(case[0][0])
    total = bits = 0
    for size, v, bit in case:
        q.word_size = size
        q.enqueue(v, bit)
        total |= (v >> bit & (2 ** size - 1)) << bits
        bits += size
    words = list(q.get_bytes())
    want = [total >> (32 * i) & 0xffffffff for i in range((bits + 31) // 32)]
    equal(words[:len(want)], want, 'words of the queue')
    require(not any(words[len(want):]), 'words after the end: {!r}', words)
    return bits > 32


SUBS = [
    Sub('mixed-sizes', check, cases, quick=700, thorough=20000),
    Sub('one-size', check, lambda: cases(fixed=True), quick=500, thorough=10000),
    Sub('words', check_bytes, fillings, quick=700, thorough=6000),
    Sub('long', check, long_cases, quick=20, thorough=300),
    Sub('words-long', check_bytes, long_fillings, quick=20, thorough=300),
]

"""C09: losing packets leaves exactly the candidates that the received bits allow"""
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Sub, equal, require

RULE = ('Programs of 1 to 24 words (up to 2200 in the long cases) at contiguous or scattered addresses in any dictionary order, orders built or '
        'given, chunks of 1, 2, 4 or 8 bits, one or more packets lost, packet counts that are not integers too. The '
        'candidates are compared with the enumeration of the bits the lost packets carried. Non-trivial: at least two '
        'words damaged.')
ASSUMPTIONS = ['At least one packet is lost, with or without data; at most 6 bits per word are lost, to keep the enumeration small.']
FINDING = 'bit31'
MAX_BITS = 6
MAX_CANDIDATES = 500


@st.composite
def cases(draw, long=False):
    size = draw(st.sampled_from([1, 2, 2, 2, 4, 8]))
    if long:
        program = [[a, [e]] for a, e in draw(st.one_of(*[gen.long_program(1, 150)] * 7, gen.long_program(1000, 2200)))]
    else:
        n = draw(st.integers(1, 24))
        addrs = draw(gen.addresses(n))
        program = [[a, draw(st.lists(gen.any_word(), min_size=1, max_size=draw(st.sampled_from([1, 1, 1, 2]))))] for a in addrs]
    order = draw(gen.orders(lo=4, hi=130 if long else 32))
    count = gen.order_size(order)
    lost = draw(st.lists(st.integers(0, count - 1), min_size=1, max_size=3, unique=True))
    fraction = draw(st.sampled_from([0, 0, 0.25, 0.5])) if isinstance(order, int) else 0
    return [size, program if long else draw(st.permutations(program)), order, lost, fraction, draw(st.booleans())]


def masks(slots, size, words):
    """Bits lost per word, as they are, and as the listed finding has them"""
    right, listed = [0] * (words + 1), [0] * (words + 1)
    for w, b in slots:
        m = (2 ** size - 1) << b
        right[w] |= m
        if b + size == 32:
            listed[w] |= m & 0x7fffffff
            listed[w + 1] |= 1
        else:
            listed[w] |= m
    return right[:words], listed[:words]


def affordable(order, lost_at, size, words):
    """As many of the packets as keep the enumeration small"""
    while True:
        lost = [int(order[k]) for k in lost_at]
        slots = gen.lost_chunks(order, lost, size, words)
        right, listed = masks(slots, size, words)
        counts = [bin(m).count('1') for m in right + listed]
        if max(counts) <= MAX_BITS and sum(2 ** c for c in counts) <= max(2 * MAX_CANDIDATES, 10 * words if words > 150 else 0):
            return lost, slots
        if len(lost_at) == 1:
            return lost, None
        lost_at = lost_at[:-1]


def check(ctx, case):
    from semantic_codec.corruption.corruptors import PacketCorruptor
    size, prog, o, lost_at, fraction, given = case
    order = gen.make_order(o)
    words = len(prog)
    lost, slots = affordable(order, lost_at, size, words)
    if slots is None:
        return False
    # Chunks of two bits unless told otherwise
    chunk = {} if size == 2 and words % 2 else {'bits_per_interleave': size}
    c = PacketCorruptor(len(order) - fraction, words, packets_lost=lost,
                        interleave=list(order) if given or not isinstance(o, int) else None, **chunk)
    damaged = judge(ctx, c, gen.program(prog), slots, size)
    ctx.label('nothing lost' if not damaged else 'some words intact' if damaged < words else 'all words damaged')
    return damaged > 1


def judge(ctx, c, program, slots, size):
    """Damages the program and looks at every candidate. Gives the amount of words damaged"""
    words = len(program)
    right, listed = masks(slots, size, words)
    before = {a: list(v) for a, v in program.items()}
    result = c.corrupt(program)
    equal(sorted(result), sorted(before), 'addresses')
    want, alt = {}, {}
    for k, a in enumerate(sorted(before)):
        want[a] = sorted({i.encoding ^ m for i in before[a] for m in gen.submasks(right[k])})
        alt[a] = sorted({i.encoding ^ m for i in before[a] for m in gen.submasks(listed[k])})
    got = {}
    for k, a in enumerate(sorted(before)):
        got[a] = [i.encoding for i in result[a]]
        for i in result[a]:
            equal(i.address, a, 'address of a candidate')
    # A word which is not damaged may keep candidates that it had twice
    once = {a: got[a] if listed[k] else sorted(set(got[a])) for k, a in enumerate(sorted(before))}
    if got != want and want != alt and once == alt:
        ctx.known(FINDING, 'the candidates do not change bit 31 of the words having it lost')
    else:
        for a in sorted(before):
            if right[sorted(before).index(a)]:
                equal(got[a], want[a], 'candidates at {:#x}'.format(a))
            else:
                equal(sorted(got[a]), sorted({i.encoding for i in before[a]}) if len(before[a]) > len(got[a]) else
                      sorted(i.encoding for i in before[a]), 'word not damaged at {:#x}'.format(a))
    for k, a in enumerate(sorted(before)):
        for i in before[a]:
            require(i.encoding in got[a], 'the original {:#x} is not a candidate at {:#x}', i.encoding, a)
    return sum(1 for m in right if m)


def check_again(ctx, case):
    """The same corruptor on one program after another, and on what it damaged, losing other packets each time"""
    from semantic_codec.corruption.corruptors import PacketCorruptor
    (size, prog, o, lost_at, fraction, given), steps = case
    order = gen.make_order(o)
    words = len(prog)
    c, program, total, done = None, gen.program(prog), 0, 0
    for fresh, at in [[True, lost_at]] + steps:
        lost, slots = affordable(order, [k % len(order) for k in at], size, words)
        if slots is None:
            continue
        if c is None:
            c = PacketCorruptor(len(order) - fraction, words, packets_lost=lost, bits_per_interleave=size,
                                interleave=list(order) if given or not isinstance(o, int) else None)
        c.packet_lost = lost
        if fresh or sum(len(v) for v in program.values()) > 150:
            program = gen.program([[a, es[-1:]] for a, es in prog])
        total += judge(ctx, c, program, slots, size)
        done += 1
    return done > 1 and total > 2


SUBS = [
    # Shows the listed finding in every run
    Sub('pinned', check, sweep=lambda tier: [[4, [[0x8000, [0xe3a00001]], [0x8004, [0xe3a01002]]], list(range(16)), [7], 0, True]]),
    Sub('packets', check, cases, quick=400, thorough=6000),
    Sub('packets-long', check, lambda: cases(long=True), quick=40, thorough=500),
    Sub('again', check_again, lambda: st.tuples(cases(), st.lists(st.tuples(st.booleans(), st.lists(
        st.integers(0, 63), min_size=1, max_size=2, unique=True)), min_size=1, max_size=3)), quick=120, thorough=2000),
]

"""C28: the shift compressor takes away the listed bits, and nothing else"""
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Sub, equal, require

RULE = ('Data of 1 to 24 words (up to 5000 in the long cases) and any set of slots of 1 to 8 bits that do not overlap, listed in any order, with the '
        'default size or an explicit one. The result is compared with the bits of the bytes of the data that are not '
        'listed, packed from the first. Non-trivial: two slots or more.')
ASSUMPTIONS = ['Bit b of word w is the bit 32 w + b of the bytes of the data, counting from the most significant bit of '
               'the first byte']


@st.composite
def cases(draw, long=False):
    data = draw(gen.many_words(*((1, 400) if long != 'huge' else (400, 5000)), edge=True) if long else st.lists(gen.U32, min_size=1, max_size=24))
    size = draw(st.sampled_from([1, 2, 2, 2, 3, 4, 8]))
    aligned = draw(st.booleans())
    free, slots = 0, []
    total = 32 * len(data)
    if long == 'huge':
        free = draw(st.integers(0, total // 32)) * 32
    density = draw(st.sampled_from([60, 400] if long else [2, 6, 40]))
    while True:
        free += draw(st.integers(0, density)) * (size if aligned else 1)
        if free + size > total or len(slots) > 60:
            break
        slots.append([free // 32, free % 32])
        free += size
    for _ in range(draw(st.sampled_from([0, 0, 0, 1, 2]))):
        # Slots crossing the end of the data, or after it
        free = max(free, total - size + 1) + draw(st.integers(0, 40))
        slots.append([free // 32, free % 32])
        free += size
    explicit = size != 2 or draw(st.booleans())
    return [data, size if explicit else None, draw(st.permutations(slots)) if draw(st.booleans()) else slots]


def check(ctx, case):
    from semantic_codec.compressor.shiftcompressor import ShiftCompressor
    data, size, slots = case
    args = (list(map(tuple, slots)), list(data))
    c = ShiftCompressor(*args) if size is None else ShiftCompressor(*args, default_shift_count=size)
    c.compress()
    size = size or 2
    bits = [b >> k & 1 for w in data for b in w.to_bytes(4, 'little') for k in range(7, -1, -1)]
    gone = {32 * w + b + j for w, b in slots for j in range(size)}
    left = [b for k, b in enumerate(bits) if k not in gone]
    left += [0] * (-len(left) % 8)
    want = bytes(sum(b << (7 - k) for k, b in enumerate(left[j:j + 8])) for j in range(0, len(left), 8))
    equal(c.compressed_buffer.hex(), want.hex(), 'compressed data')
    equal(args[0], list(map(tuple, slots)), 'slots given')
    equal(args[1], data, 'data given')
    c.compress()
    equal(c.compressed_buffer.hex(), want.hex(), 'data compressed again')
    ctx.label('no slots' if not slots else 'crossing words' if any(b + size > 32 for _, b in slots) else 'within words')
    return len(slots) > 1


SUBS = [
    Sub('shift', check, cases, quick=4000, thorough=20000),
    Sub('shift-huge', check, lambda: cases(long='huge'), quick=12, thorough=200),
    Sub('shift-long', check, lambda: cases(long=True), quick=60, thorough=600),
]

"""C38: storing the packets of a program keeps it whole in a file, and only touches the lost packets in the other"""
import contextlib
import io
import os
import runpy
import sys

from hypothesis import strategies as st

from pbt import core, gen
from pbt.core import Sub, equal, require

RULE = ('Listings of programs of 1 to 120 words (any amount of packets, the last one complete or not) with gaps, functions in any order and '
        'words out of any function, stored by the script; and data of any words with slots of any packets lost given to the compressor. '
        'Non-trivial: some packets are lost.')
ASSUMPTIONS = ['Slots are counted on the bits of the bytes as in C28. Which of the bits of the slots are cleared is not judged.']


def bits_of(data):
    return [b >> k & 1 for b in data for k in range(7, -1, -1)]


def judge(data, stored, slots, size):
    """Only bits of the slots may change, and only to zero"""
    equal(len(stored), len(data), 'bytes stored')
    inside = {32 * w + b + j for w, b in slots for j in range(size)}
    for k, (x, y) in enumerate(zip(bits_of(data), bits_of(stored))):
        if x != y:
            require(k in inside, 'bit {} changed, and it is not in the slots of the packets lost', k)
            require(y == 0, 'bit {} was zero and is not cleared but set', k)


def check_script(ctx, case):
    names, words = case
    lines = ['.functions'] + ['0x{:x};f{}'.format(a, k) for k, (a, fn, e) in enumerate(words) if fn and (names >> k) & 1] + ['.text']
    lines += ['0x{:x};{:x};text'.format(a, e) for a, fn, e in words]
    if len(lines) == 2 + len(words):
        lines.insert(1, '0x{:x};main'.format(words[0][0]))
    starts = [int(x.split(';')[0], 16) for x in lines[1:lines.index('.text')]]
    inside = [e for a, fn, e in words if a >= min(starts)]
    with open('p.disam', 'w') as f:
        f.write('\n'.join(lines) + '\n')
    argv = sys.argv
    sys.argv = ['store_packets.py', 'p.disam', 'p.out']
    said = io.StringIO()
    try:
        with contextlib.redirect_stdout(said):
            runpy.run_path(os.path.join(core.REPO, 'store_packets.py'), run_name='__main__')
    except SystemExit:
        require(False, 'the script ends saying {!r}', said.getvalue()[-200:])
    finally:
        sys.argv = argv
    whole, stored = open('p.outa100', 'rb').read(), open('p.out', 'rb').read()
    for f in ('p.disam', 'p.out', 'p.outa100'):
        os.remove(f)
    data = b''.join(e.to_bytes(4, 'little') for e in inside)
    equal(whole.hex(), data.hex(), 'whole program stored')
    count = (len(inside) + 3) // 4
    order = gen.make_order(count)
    lost = list(range(count // 5))
    judge(data, stored, gen.lost_chunks(order, lost, 2, len(inside)), 2)
    ctx.label('some lost' if lost else 'nothing lost')
    return bool(lost)


@st.composite
def listings(draw):
    n = draw(st.one_of(st.integers(1, 24), st.integers(17, 120)))
    addrs = draw(gen.addresses(n))
    every = draw(st.lists(gen.any_word(), min_size=1, max_size=n))
    words = [[a, draw(st.integers(0, 9)) == 0, every[k % len(every)]] for k, a in enumerate(addrs)]
    return [draw(st.integers(0, 2 ** n - 1)), words]


def check_swap(ctx, case):
    from semantic_codec.compressor.shiftcompressor import SwapCompressor
    from semantic_codec.corruption.corruption import predict_corruption
    data, o, lost_at, extra = case
    order = gen.make_order(o)
    lost = [int(order[k % len(order)]) for k in lost_at]
    errors = predict_corruption(len(order), 2, len(data) + extra, list(order), lost)
    c = SwapCompressor(errors, list(data))
    c.compress()
    whole = b''.join(e.to_bytes(4, 'little') for e in data)
    judge(whole, c.compressed_buffer, gen.lost_chunks(order, lost, 2, len(data)), 2)
    return bool(lost)


SUBS = [
    Sub('script', check_script, listings, quick=150, thorough=3000),
    Sub('compressor', check_swap, lambda: st.tuples(st.lists(gen.edge_words(), min_size=1, max_size=30), gen.orders(), st.lists(
        st.integers(0, 63), max_size=4), st.sampled_from([0, 0, 1, 5])), quick=300, thorough=4000),
]

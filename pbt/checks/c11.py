"""C11: a damaged program stored as JSON is loaded back as it was"""
import os
import random

from hypothesis import strategies as st

from pbt import gen
from pbt.core import Sub, equal, raises

RULE = ('Programs of 0 to 15 addresses (up to 300 in the long cases) in any order, with 0 to 6 candidates per address in any order, any words; and '
        'programs damaged by the packet and random simulators, which store them. Non-trivial: some address has two '
        'candidates or more.')


@st.composite
def cases(draw):
    addrs = draw(st.lists(st.integers(0, 0xffffffff // 4).map(lambda x: 4 * x), max_size=15, unique=True))
    return [[a, draw(st.lists(gen.any_word(), max_size=6))] for a in addrs]


def same(loaded, program):
    equal(gen.encodings(loaded), gen.encodings(program), 'candidates loaded')
    equal(list(loaded), list(program), 'order of the addresses loaded')
    for a, v in loaded.items():
        for i, j in zip(v, program[a]):
            equal(i.address, a, 'address of a candidate loaded')
            if gen.decodable(i.encoding):
                equal(str(i), str(j), 'text of a candidate loaded')


def check(ctx, prog):
    from semantic_codec.corruption.corruption import save_corrupted_program_to_json, load_corrupted_program_from_json
    from semantic_codec.corruption.corruptors import JSONCorruptor
    program = gen.program(prog)
    save_corrupted_program_to_json(program, 'p.json')
    equal(gen.encodings(program), {a: es for a, es in prog}, 'program after storing it')
    same(load_corrupted_program_from_json('p.json'), program)
    same(JSONCorruptor('p.json').corrupt({}), program)
    os.remove('p.json')
    return any(len(es) > 1 for _, es in prog)


@st.composite
def long_cases(draw):
    return [[a, sorted(e ^ m for m in gen.submasks(mask))] for a, e, mask in draw(gen.long_damaged(1, 300))]


@st.composite
def damages(draw, long=False):
    if long:
        words = draw(gen.long_program(1, 80))
    else:
        n = draw(st.integers(1, 12))
        words = [[a, draw(gen.any_word())] for a in draw(gen.addresses(n))]
    return [words, draw(st.sampled_from(['packets', 'random'])), draw(st.integers(8, 20)), draw(st.integers(0, 2 ** 16))]


def check_corruptors(ctx, case):
    from semantic_codec.corruption.corruptors import JSONCorruptor, PacketCorruptor, RandomCorruptor
    words, kind, packets, seed = case
    program = gen.program([[a, [e]] for a, e in words])
    if kind == 'packets':
        c = PacketCorruptor(packets, len(words), packets_lost=[seed % packets], save_corrupted_path='q.json')
        if not gen.lost_chunks(gen.make_order(packets), [seed % packets], 2, len(words)):
            return False
    else:
        random.seed(seed)
        c = RandomCorruptor(seed % 101, 3, True)
        c.corrupted_program_path = 'q.json'
    program = c.corrupt(program)
    same(JSONCorruptor('q.json').corrupt({}), program)
    os.remove('q.json')
    ctx.label(kind)
    return any(len(v) > 1 for v in program.values())


def check_no_path(ctx, case):
    """Neither storing nor loading without telling where"""
    from semantic_codec.corruption.corruptors import JSONCorruptor, PacketCorruptor, RandomCorruptor
    words, how = case
    program = gen.program([[a, [e]] for a, e in words])
    if how == 'load':
        c = JSONCorruptor()
    elif how == 'default':
        # The random simulator stores what it damages unless told otherwise
        c = RandomCorruptor()
    else:
        c = RandomCorruptor(50, 2, save_corrupted=True)
    raises(lambda: c.corrupt(program), 'no path ({})'.format(how))
    return True


SUBS = [
    Sub('store-load', check, cases, quick=750, thorough=6000),
    Sub('simulators', check_corruptors, damages, quick=180, thorough=2000),
    Sub('no-path', check_no_path, lambda: st.tuples(gen.long_program(1, 10), st.sampled_from(['load', 'default', 'store'])), quick=20, thorough=200),
    Sub('store-load-long', check, long_cases, quick=15, thorough=200),
    Sub('simulators-long', check_corruptors, lambda: damages(long=True), quick=15, thorough=200),
]

"""C27: the Huffman codes of the parts of the instructions are prefix free and optimal"""
import heapq
import random
from fractions import Fraction

from hypothesis import strategies as st

from pbt import gen, stubs
from pbt.core import Sub, equal, require

RULE = ('Frequencies of 1 to 40 symbols (500 in the long cases; numbers or strings), equal, skewed, zero, growing as powers of two or as Fibonacci '
        'numbers; and the frequencies of the parts of programs of 1 to 30 words. Sizes are compared with the cost of the '
        'optimal code, computed apart, and encoded messages are decoded. Non-trivial: four symbols or more, not all of '
        'the same frequency.')


@st.composite
def frequencies(draw):
    kind = draw(st.sampled_from(['any', 'few', 'powers', 'fibonacci', 'equal']))
    n = draw(st.integers(1, 40 if kind in ('any', 'few', 'equal') else 24))
    if kind == 'any':
        ws = draw(st.lists(st.integers(1, 10 ** 6), min_size=n, max_size=n))
    elif kind == 'few':
        ws = draw(st.lists(st.integers(draw(st.integers(0, 1)), 4), min_size=n, max_size=n))
    elif kind == 'powers':
        ws = [2 ** k for k in range(n)]
    elif kind == 'fibonacci':
        ws = [1, 1]
        while len(ws) < n:
            ws.append(ws[-1] + ws[-2])
        ws = ws[:n]
    else:
        ws = [7] * n
    ws = draw(st.permutations(ws))
    if draw(st.booleans()):
        syms = draw(st.lists(st.integers(0, 500), min_size=n, max_size=n, unique=True))
    else:
        syms = draw(st.lists(st.text('abcxyz01', min_size=1, max_size=4), min_size=n, max_size=n, unique=True))
    return [[s, w] for s, w in zip(syms, ws)]


@st.composite
def long_frequencies(draw):
    n = draw(st.integers(1, 500))
    r = random.Random(draw(st.integers(0, 2 ** 32)))
    most = r.choice([1, 3, 100, 10 ** 9])
    syms = r.sample(range(4096), n)
    return [[s if most % 2 else 'r{}'.format(s), r.randint(0, most) if r.randint(0, 1) else r.randint(1, 3)] for s in syms]


def cost(ws):
    heap = list(ws)
    heapq.heapify(heap)
    total = 0
    while len(heap) > 1:
        x = heapq.heappop(heap) + heapq.heappop(heap)
        total += x
        heapq.heappush(heap, x)
    return total


def judge(freq):
    from semantic_codec.compressor.huffman import encode, huffman_size
    given = dict(freq)
    huff = encode(freq)
    equal(dict(freq), given, 'frequencies after encoding')
    equal(sorted(str(p[0]) for p in huff), sorted(map(str, freq)), 'symbols having a code')
    codes = {p[0]: p[1] for p in huff}
    require(all(set(c) <= {'0', '1'} for c in codes.values()), 'codes that are not binary: {}', codes)
    ordered = sorted(codes.values())
    for x, y in zip(ordered, ordered[1:]):
        require(not y.startswith(x), 'code {} is a prefix of {}', x, y)
    if len(codes) > 1:
        equal(sum(Fraction(1, 2 ** len(c)) for c in codes.values()), 1, 'use of the space of codes')
    equal([len(p[1]) for p in huff], sorted(len(p[1]) for p in huff), 'lengths of the codes, in the order given')
    size = cost(freq.values())
    equal(sum(freq[s] * len(c) for s, c in codes.items()), size, 'size of the message')
    equal(huffman_size(freq), size, 'size told')
    equal(huffman_size(freq, huff), size, 'size told for the codes')
    # A rarer symbol has no shorter code
    rare = sorted(freq, key=lambda s: freq[s])
    for x, y in zip(rare, rare[1:]):
        require(freq[x] == freq[y] or len(codes[x]) >= len(codes[y]), 'the rarer symbol {!r} has a shorter code than {!r}', x, y)
    return codes


def check(ctx, case):
    stubs.stub_darm()
    freq = {s: w for s, w in case}
    codes = judge(freq)
    # A message goes through the codes and back
    if len(codes) > 1:
        message = [s for s, w in case for _ in range(1 + w % 3)]
        bits, back, word = ''.join(codes[s] for s in message), [], ''
        inverse = {c: s for s, c in codes.items()}
        for b in bits:
            word += b
            if word in inverse:
                back.append(inverse[word])
                word = ''
        equal(back, message, 'decoded message')
    ctx.label('one symbol' if len(codes) == 1 else 'symbols')
    return len(codes) > 3 and len(set(freq.values())) > 1


def check_parts(ctx, case):
    stubs.stub_darm()
    from semantic_codec.compressor.huffman import InstructionPartFrequencyCounter
    words, again = case
    # Lists may have an instruction more than once
    program = [gen.inst(e, 0x1000 + 4 * k) for k, e in enumerate(words)]
    program += [program[k % len(words)] for k in again]
    c = InstructionPartFrequencyCounter()
    c.count(program)
    for name, freq, where, parts in [
            ('register', c.reg_frequency, c.reg_with, lambda i: list(i.registers_used())),
            ('opcode', c.opcode_frequency, c.opcode_with, lambda i: [i.opcode_field]),
            ('condition', c.cond_frequency, c.cond_with, lambda i: [i.conditional_field])]:
        want, wanted = {}, {}
        for i in program:
            for p in parts(i):
                want[p] = want.get(p, 0) + 1
                wanted.setdefault(p, [])
                if i.address not in wanted[p]:
                    wanted[p].append(i.address)
        equal(dict(freq), want, 'frequency of each ' + name)
        equal({k: [i.address for i in v] for k, v in where.items()}, wanted, 'instructions with each ' + name)
        if freq:
            judge(dict(freq))
    return len(program) > 2


SUBS = [
    Sub('codes', check, frequencies, quick=2100, thorough=15000),
    Sub('codes-long', check, long_frequencies, quick=25, thorough=400),
    Sub('parts', check_parts, lambda: st.tuples(
        st.lists(gen.words(), min_size=1, max_size=30), st.lists(st.integers(0, 29), max_size=4)), quick=600, thorough=3000),
]

"""Generators shared by the checks: ARM words, programs, packets. All cases are plain JSON data"""
import os
import random

from hypothesis import strategies as st

U32_EDGES = [0, 1, 0x80000000, 0xffffffff, 0x7fffffff, 0xaaaaaaaa]
U32 = st.one_of(st.integers(0, 0xffffffff), st.sampled_from(U32_EDGES))
DIVISORS = [1, 2, 4, 8, 16, 32]

STARTS = [0, 0x1000, 0x10000, 0x8, 0x103d4]

LOW = st.one_of(st.integers(0, 3), st.integers(0, 12))

_md = None


def disasm(encoding, address=0):
    """What capstone makes of a word, without the code under test"""
    global _md
    if _md is None:
        import capstone
        _md = capstone.Cs(capstone.CS_ARCH_ARM, capstone.CS_MODE_ARM)
        _md.detail = True
    for i in _md.disasm(encoding.to_bytes(4, 'little'), address):
        return i
    return None


def text(encoding, address):
    i = disasm(encoding, address)
    return None if i is None else '{}\t{}'.format(i.mnemonic, i.op_str)


def decodable(e):
    return disasm(e) is not None


def _cond(r):
    """Condition fields: mostly always"""
    return r.choice([14] * 6 + [0, 1, 2, 8, 10, 11, 12, 13])


def _low(r):
    return r.randint(0, r.choice([3, 12]))


def _data_processing(r, span):
    op, s, rn, rd = r.randint(0, 15), r.randint(0, 1), _low(r), _low(r)
    if 8 <= op <= 11:
        s, rd = 1, 0
    if op in (13, 15):
        rn = 0
    head = op << 21 | s << 20 | rn << 16 | rd << 12
    form = r.randint(0, 3)
    if form == 0:
        return 1 << 25 | head | r.randint(0, 255) | r.choice([0, 0, 1, 8, 15]) << 8
    if form < 3:
        return head | _low(r) | r.choice([0, 0, 1, 2, 3]) << 5 | r.choice([0, 0, 1, 31]) << 7
    return head | _low(r) | r.randint(0, 3) << 5 | _low(r) << 8 | 1 << 4


def _single_transfer(r, span):
    load, byte, up = r.randint(0, 1), r.randint(0, 1), r.randint(0, 1)
    rn, rd = r.choice([_low(r), _low(r), 13, 15]), _low(r)
    p, w = 1, (r.randint(0, 1) if rn < 13 and rn != rd else 0)
    if r.randint(0, 3) == 0 and rn != rd and rn < 13:
        p, w = 0, 0
    head = 1 << 26 | p << 24 | up << 23 | byte << 22 | w << 21 | load << 20 | rn << 16 | rd << 12
    if r.randint(0, 1):
        return head | r.randint(0, 0xfff)
    return head | 1 << 25 | _low(r) | r.choice([0, 0, 2]) << 7


def _half_transfer(r, span):
    load = r.randint(0, 1)
    sh = r.choice([1, 2, 3]) if load else 1
    imm = r.randint(0, 1)
    return (1 << 24 | r.randint(0, 1) << 23 | imm << 22 | load << 20 | _low(r) << 16 | _low(r) << 12
            | (r.randint(0, 15) << 8 if imm else 0) | 0x90 | sh << 5 | _low(r))


def _block_transfer(r, span):
    regs = sum(1 << x for x in r.sample(range(13), r.randint(2, r.choice([4, 4, 13]))))
    kind = r.randint(0, 3)
    if kind == 0:
        return 0x92d0000 | regs | r.choice([0, 1 << 14])
    if kind == 1:
        return 0x8bd0000 | regs | r.choice([0, 1 << 15])
    return r.choice([0x8800000, 0x8900000]) | _low(r) << 16 | regs


def _branch(r, span):
    return r.choice([0xa000000, 0xa000000, 0xb000000]) | r.randint(-span, span) & 0xffffff


def _branch_reg(r, span):
    return r.choice([0x12fff10, 0x12fff30]) | r.choice(list(range(13)) + [14] * 4)


def _multiply(r, span):
    s, acc = r.randint(0, 1), r.randint(0, 1)
    rd, rm, rs = r.sample(range(13), 3)
    return acc << 21 | s << 20 | rd << 16 | (_low(r) if acc else 0) << 12 | rs << 8 | 0x90 | rm


def _other(r, span):
    return r.choice([0xf000000, 0x1a00000, 0x320f000, 0x10f0000])


def _coprocessor(r, span):
    """Sums of floating point registers, and moves from and to the common registers"""
    d, n, m, x, y = (r.randint(0, 3) for _ in range(5))
    return r.choice([0xe300b00 | n << 16 | d << 12 | m, 0xe300a00 | n << 16 | d << 12 | m, 0xc500b10 | x << 16 | y << 12 | m,
                     0xc400b10 | x << 16 | y << 12 | m, 0xe000a10 | n << 16 | x << 12, 0xe100a10 | n << 16 | x << 12])


_CLASSES = [_data_processing] * 3 + [_single_transfer] * 2 + [_half_transfer, _block_transfer, _branch, _branch_reg, _multiply,
                                                              _other]
_pools = {}


def pool(classes, span=64, size=3000):
    """
    Decodable words of some classes, from the ones with fewer bits on. Drawing a word is drawing a place of the pool, which
    is much cheaper than drawing each of its fields
    """
    key = (tuple(f.__name__ for f in classes), span, size)
    if key not in _pools:
        r = random.Random('{}/{}'.format(os.environ.get('VERIF_SEED') or 1, key))
        found = set()
        for k in range(20 * size):
            e = _cond(r) << 28 | classes[k % len(classes)](r, span) & 0x0fffffff
            if e not in found and decodable(e):
                found.add(e)
            if len(found) == size:
                break
        _pools[key] = sorted(found, key=lambda e: (e >> 28 != 14, bin(e).count('1'), e))
    return st.sampled_from(_pools[key])


def data_processing():
    return pool([_data_processing])


def single_transfer():
    return pool([_single_transfer])


def block_transfer():
    return pool([_block_transfer])


def coprocessor():
    return pool([_coprocessor], size=600)


def branch_word(span=64):
    return pool([_branch], span, 300)


def multiply():
    return pool([_multiply])


def words(span=64):
    """Words of all the common classes, all of them decodable"""
    return pool(_CLASSES, span, 6000)


def any_word():
    """Any word, decodable or not"""
    return st.one_of(words(), U32)


def undefined_words():
    if 'undefined' not in _pools:
        r = random.Random('{}/undefined'.format(os.environ.get('VERIF_SEED') or 1))
        some = [0xffffffff, 0xf8ffffff, 0xe6ffffff]
        while len(some) < 300:
            e = r.getrandbits(32)
            if not decodable(e):
                some.append(e)
        _pools['undefined'] = some
    return st.sampled_from(_pools['undefined'])


@st.composite
def addresses(draw, n, start=None, gaps=True):
    """n increasing addresses, mostly contiguous"""
    a = draw(st.sampled_from(STARTS + [0x7ffffff0, 0xc0008000])) if start is None else start
    result = []
    for i in range(n):
        result.append(a)
        a += 4
        if gaps and draw(st.integers(0, 7)) == 0:
            a += 4 * draw(st.sampled_from([1, 2, 3, 1, 2, 3, 0x400 if a < 0xf0000000 else 1]))
    return result


def edge_words():
    """Any word, and words having just some bits on or off"""
    few = st.lists(st.integers(0, 31), max_size=3).map(lambda b: sum(1 << x for x in set(b)))
    return st.one_of(U32, few, few.map(lambda x: x ^ 0xffffffff))


@st.composite
def orders(draw, lo=1, hi=24):
    """An interleaving order: the one built by the library for a count, or any other one"""
    n = draw(st.integers(lo, hi))
    kind = draw(st.sampled_from(['built', 'built', 'any', 'labels']))
    if kind == 'built':
        return n
    if kind == 'any':
        return draw(st.permutations(range(n)))
    return draw(st.lists(st.integers(0, 1000), min_size=n, max_size=n, unique=True))


def make_order(o):
    """The order of a case: an integer stands for the order built for that many packets"""
    from semantic_codec.interleaver.interleaver2d import build_2d_interleave_sp
    return build_2d_interleave_sp(o, flat=True) if isinstance(o, int) else list(o)


def order_size(o):
    return o if isinstance(o, int) else len(o)


def submasks(mask):
    """All the words made with the bits of mask"""
    result = [0]
    for b in range(32):
        if mask >> b & 1:
            result += [x | 1 << b for x in result]
    return result


def lost_chunks(order, lost, size, word_count):
    """Chunks (word, bit) of the data that travel in the lost packets"""
    lost = set(lost)
    n = len(order)
    per_word = 32 // size
    return [(c // per_word, (c % per_word) * size) for c in range(word_count * per_word) if order[c % n] in lost]


def inst(encoding, address):
    from semantic_codec.architecture.capstone_instruction import CAPSInstruction
    return CAPSInstruction(encoding, address)


def mark(prog, ignored):
    """Marks candidates as discarded, given their places counting through the program"""
    every = [i for a in prog for i in prog[a]]
    for k in ignored:
        if every:
            every[k % len(every)].ignore = True


def discards():
    return st.one_of(st.just([]), st.lists(st.integers(0, 60), max_size=6))


def program(cands):
    """{address: [instructions]} of a case [[address, [encodings]], ...]"""
    return {a: [inst(e, a) for e in es] for a, es in cands}


def encodings(prog):
    return {a: [i.encoding for i in v] for a, v in prog.items()}


def real_words():
    """The words of the programs of the repository, in order: [[word, ...], ...]"""
    if 'real' not in _pools:
        from pbt import core
        runs = []
        where = os.path.join(core.REPO, 'tests', 'data')
        for name in sorted(os.listdir(where)) if os.path.isdir(where) else []:
            if not name.endswith('.disam'):
                continue
            section, run = '', []
            for line in open(os.path.join(where, name), errors='replace'):
                if line.startswith('.'):
                    section = line
                    runs.append([])
                    continue
                parts = line.split(';')
                try:
                    a, e = int(parts[0], 16), int(parts[1], 16)
                except (ValueError, IndexError):
                    continue
                if not section.startswith('.function'):
                    if decodable(e):
                        runs[-1].append(e)
                    else:
                        runs.append([])
        _pools['real'] = [r for r in runs if len(r) > 3] or [[0xe1a00000]]
    return _pools['real']


@st.composite
def real_slice(draw, n):
    """n words that follow each other in a program of the repository (from the start again if there are not as many)"""
    runs = real_words()
    total = sum(map(len, runs))
    at = draw(st.integers(0, total - 1))
    for r in runs:
        if at < len(r):
            at = max(0, min(at, len(r) - n))
            return [r[(at + k) % len(r)] for k in range(n)]
        at -= len(r)


@st.composite
def damaged(draw, lo=1, hi=12, max_bits=4, undefined_originals=False, gaps=True, span=8):
    """
    A damaged program [[address, original, mask], ...]: the bits of the mask are lost. Some words arrive undamaged
    """
    n = draw(st.integers(lo, hi))
    result = []
    # Repeated words make metadata that is not unique
    real = draw(real_slice(n)) if n and draw(st.integers(0, 4)) == 4 else None
    pool = draw(st.lists(words(span), min_size=1, max_size=max(2, n))) if not real else None
    for k, a in enumerate(draw(addresses(n, gaps=gaps))):
        e = real[k] if real else draw(st.sampled_from(pool))
        bits = draw(st.sets(st.integers(0, 31), max_size=max_bits)) if draw(st.integers(0, 3)) else set()
        mask = sum(1 << b for b in bits)
        if undefined_originals and draw(st.integers(0, 9)) == 0:
            e, mask = draw(undefined_words()), 0
        result.append([a, e, mask])
    return result


def candidates(d):
    """[[address, [encodings]], ...] of a damaged program, sorted as the corruptors do"""
    return [[a, sorted(e ^ m for m in submasks(mask))] for a, e, mask in d]


# Long inputs: Hypothesis draws their size and a seed

@st.composite
def many_words(draw, lo, hi, edge=False):
    """From lo to hi words, most of them instructions. Repeated or not, as in a program of the repository or not"""
    words()
    n = draw(st.integers(lo, hi))
    r = random.Random(draw(st.integers(0, 2 ** 32)))
    kind = r.randint(0, 3)
    if edge:
        return [r.choice([r.getrandbits(32), r.getrandbits(32), r.choice(U32_EDGES), 1 << r.randint(0, 31)]) for _ in range(n)]
    if kind == 0:
        every = [e for run in real_words() for e in run]
        at = r.randint(0, max(0, len(every) - n))
        return [every[(at + k) % len(every)] for k in range(n)]
    some = next(v for k, v in _pools.items() if len(k) == 3 and len(k[0]) == len(_CLASSES) and k[1] == 64)
    if kind == 1:
        some = r.sample(some, r.randint(1, 20))
    return [r.choice(some) for k in range(n)]


@st.composite
def long_program(draw, lo, hi, gaps=True):
    """[[address, word], ...] in order"""
    es = draw(many_words(lo, hi))
    r = random.Random(draw(st.integers(0, 2 ** 32)))
    a, result = r.choice(STARTS + [0x7fffff00]), []
    gap = r.choice([0, 4, 40]) if gaps else 0
    for e in es:
        result.append([a, e])
        a += 4 * (1 + (r.randint(1, 5) if gap and r.randint(0, gap) == 0 else 0))
    return result


RUNS = [0, 1, 14, 15, 16, 17, 31, 32, 40, 63, 64, 65, 100, 126, 127, 128, 129, 200, 254, 255, 256, 257, 300, 511, 512, 513, 700]


@st.composite
def runs(draw, some, filler=None, lo=1, hi=5, longest=700):
    """Some words that have runs of a word in between, of lengths around the powers of two"""
    result = []
    lengths = [n for n in RUNS if n <= longest]
    for e in draw(st.lists(some, min_size=lo, max_size=hi)):
        result.append(e)
        n = draw(st.sampled_from(lengths))
        result += [draw(some) if filler is None or draw(st.integers(0, 3)) == 0 else filler] * n
    return result


@st.composite
def long_damaged(draw, lo, hi, max_bits=3, crowd=9):
    """[[address, original, mask], ...], as `damaged`. One of the words may have up to 2 ** crowd candidates"""
    prog = draw(long_program(lo, hi))
    r = random.Random(draw(st.integers(0, 2 ** 32)))
    arrive = r.choice([0.1, 0.3, 0.8])
    same = r.randint(0, 2 ** 32 - 1) if r.randint(0, 2) == 0 else None
    result = []
    for a, e in prog:
        bits = [] if r.random() < arrive else r.sample(range(32), r.randint(1, max_bits))
        if bits and same is not None:
            bits = [k for k in range(32) if same >> k & 1][:max_bits]
        result.append([a, e, sum(1 << b for b in bits)])
    if crowd and r.randint(0, 1):
        # Candidates of any kind, or that change the registers or the immediate only
        first = r.choice([0, 0, 12, 16])
        where = range(32) if r.randint(0, 1) else range(first, first + 12)
        r.choice(result)[2] = sum(1 << b for b in r.sample(where, r.randint(min(crowd, 7), crowd)))
    return result


@st.composite
def long_functions(draw, lo, hi, max_bits=3):
    """A long damaged program, and where its functions start: [damaged, [place, ...]]"""
    d = draw(long_damaged(lo, hi, max_bits))
    r = random.Random(draw(st.integers(0, 2 ** 32)))
    return [d, sorted({0} | {r.randrange(len(d)) for _ in range(r.randint(0, 6))})]


def real_programs():
    """The functions of the programs of the repository: [[[[address, word], ...], ...], ...]"""
    if 'programs' not in _pools:
        from pbt import core
        programs = []
        where = os.path.join(core.REPO, 'tests', 'data')
        for name in sorted(os.listdir(where)) if os.path.isdir(where) else []:
            if name.endswith('.disam'):
                section, starts, words = '', set(), {}
                for line in open(os.path.join(where, name), errors='replace'):
                    section = line if line.startswith('.') else section
                    parts = line.split(';')
                    try:
                        a = int(parts[0], 16)
                        if section.startswith('.function'):
                            starts.add(a)
                        elif decodable(int(parts[1], 16)):
                            words[a] = int(parts[1], 16)
                    except (ValueError, IndexError):
                        pass
                found = []
                for a in sorted(words):
                    if a in starts or not found:
                        found.append([])
                    found[-1].append([a, words[a]])
                if found:
                    programs.append(found)
                    _pools['program ' + name] = found
        _pools['programs'] = programs or [[[[0x1000, 0xe1a00000], [0x1004, 0xe12fff1e]]]]
    return _pools['programs']


def real_program(name):
    real_programs()
    return _pools['program ' + name]


MODEL = ['low_probability', 'high_probability', 'push_given_pop_at_fn_end_equal_registers', 'push_given_pop_at_fn_end',
         'push_given_pop_at_fn_middle', 'branch_after_cpsr_and_near_cond_are_equals', 'branch_after_cpsr_and_prev_cond_are_equals',
         'branch_after_cpsr_and_after_cond_are_equals', 'branch_after_cpsr', 'both_conditionals_are_equals',
         'prev_conditionals_are_equals', 'just_any_jump_is_valid', 'branch_to_this_method', 'branch_to_other_method_start']


def model_values():
    """Hundredths that each value of a probabilistic model has, or nothing for the default ones"""
    # What a jump elsewhere has is twice the value
    return st.fixed_dictionaries({}, optional={k: st.integers(1, 45 if k in ('just_any_jump_is_valid', 'low_probability') else 99)
                                               for k in MODEL})


def model(values):
    from semantic_codec.metadata.probabilistic_model import DefaultProbabilisticModel
    m = DefaultProbabilisticModel()
    for k, v in values.items():
        setattr(m, k, v / 100)
    return m

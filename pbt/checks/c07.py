"""C07: operations on bit fields touch exactly the bits requested"""
import random

from hypothesis import strategies as st

from pbt import gen
from pbt.core import Sub, equal, raises
from pbt.stubs import stub_darm

RULE = ('All 32 bit values and all valid bit ranges (masks: every range, exhaustive), and invalid ranges, which have to '
        'be rejected. Fields of instructions: any word and any new value. Non-trivial: the range is not the whole word '
        'and the operation changes the value.')


@st.composite
def copies(draw):
    n = draw(st.integers(1, 32))
    return [draw(gen.U32), draw(gen.U32), n, draw(st.integers(0, 32 - n)), draw(st.integers(0, 32 - n))]


def check_copy(ctx, case):
    from semantic_codec.architecture.bits import Bits
    src, dst, n, a, b = case
    want = 0
    for i in range(32):
        bit = src >> (a + i - b) & 1 if b <= i < b + n else dst >> i & 1
        want |= bit << i
    equal(Bits.copy_bits(src, dst, a, a + n - 1, b), want,
          'bits {}..{} of {:#x} copied to bit {} of {:#x}'.format(a, a + n - 1, src, b, dst))
    ctx.label('left' if b > a else 'right' if b < a else 'same place')
    return n < 32 and want != dst


def every_copy(tier):
    """Every range copied to every place"""
    rnd = random.Random(7)
    for n in range(1, 33):
        for a in range(33 - n):
            for b in range(33 - n):
                yield [0xffffffff, 0, n, a, b]
                yield [rnd.getrandbits(32), rnd.getrandbits(32), n, a, b]


def check_mask(ctx, case):
    from semantic_codec.architecture.bits import Bits
    lo, hi = case
    if not 0 <= lo <= hi < 32:
        raises(lambda: Bits.set(hi, lo), 'bits {}..{}'.format(lo, hi))
        raises(lambda: Bits.check_range(lo, hi), 'range {}..{}'.format(lo, hi))
        raises(lambda: Bits.copy_bits(0, 0, lo, hi, 0), 'copy of bits {}..{}'.format(lo, hi))
        return True
    Bits.check_range(lo, hi)
    want = sum(1 << i for i in range(lo, hi + 1))
    equal(Bits.set(hi, lo), want, 'bits {}..{}'.format(lo, hi))
    for b in range(32):
        equal(Bits.on(b), 1 << b, 'bit {}'.format(b))
        equal(bool(Bits.is_on(want, b)), lo <= b <= hi, 'bit {} of {:#x}'.format(b, want))
        equal(bool(Bits.is_on(~want & 0xffffffff, b)), not lo <= b <= hi, 'bit {} of {:#x}'.format(b, ~want))
    return hi - lo < 31


def check_are_on(ctx, case):
    from semantic_codec.architecture.bits import Bits
    v, lo, n = case
    hi = min(31, lo + n)
    # "are on" if any of the bits is
    equal(bool(Bits.are_on(v, hi, lo)), any(v >> i & 1 for i in range(lo, hi + 1)),
          'bits {}..{} of {:#x} are on'.format(lo, hi, v))
    return True


def check_overflow(ctx, case):
    """Copies leaving the word are rejected"""
    from semantic_codec.architecture.bits import Bits
    a, n, b = case
    if b + n <= 32 and b >= 0:
        b = 33 - n
    raises(lambda: Bits.copy_bits(0xffffffff, 0, a, min(31, a + n - 1), 32 - (min(31, a + n - 1) - a)), 'copy leaving the word')
    return True


FIELDS = {'modify_cond': (28, 4), 'modify_opcode': (21, 4), 'modify_rn': (16, 4), 'modify_rd': (12, 4),
          'modify_rs': (8, 4), 'modify_rm': (0, 4)}


def check_fields(ctx, case):
    stub_darm()
    from semantic_codec.architecture.instruction_modifier import InstructionModifier
    name, word, value = case
    if name == 'modify_immediate':
        at, n = (0, 12) if word & 0xE000000 == 0x4000000 else (0, 8)
    else:
        at, n = FIELDS[name]
    mask = (2 ** n - 1) << at
    want = word & ~mask | value << at & mask
    equal(getattr(InstructionModifier(), name)(word, value), want, '{} of {:#x} to {:#x}'.format(name, word, value))
    ctx.label(name)
    return want != word


def every_class(tier):
    """Every field of every class of instruction: the 12 highest bits tell the class and the condition"""
    rnd = random.Random(11)
    for name in sorted(FIELDS) + ['modify_immediate']:
        for top in range(2 ** 12):
            for bits in (4, 8, 12, 16) if tier != 'quick' or name == 'modify_immediate' else (4, 16):
                yield [name, top << 20 | rnd.getrandbits(20), rnd.getrandbits(bits)]


def check_endian(ctx, v):
    from semantic_codec.architecture.instruction import Instruction
    want = int.from_bytes(v.to_bytes(4, 'little'), 'big')
    equal(Instruction.reverse_endianess(v), want, 'bytes of {:#x} reversed'.format(v))
    equal(int(Instruction.reverse_endianess('{:08x}'.format(v)), 16), want, 'bytes of the text {:08x} reversed'.format(v))
    s = ' '.join('{:02x}'.format(b) for b in v.to_bytes(4, 'big'))
    equal(int(Instruction.reverse_endianess(s), 16), want, 'bytes of the text {} reversed'.format(s))
    return want != v


SUBS = [
    Sub('masks', check_mask, sweep=lambda tier: [[a, b] for a in range(-2, 35) for b in range(-2, 35)]),
    Sub('every-copy', check_copy, sweep=every_copy),
    Sub('copy', check_copy, copies, quick=3000, thorough=40000),
    Sub('any-on', check_are_on, lambda: st.tuples(gen.U32, st.integers(0, 31), st.integers(0, 31)), quick=1000,
        thorough=10000),
    Sub('copy-out', check_overflow, lambda: st.tuples(st.integers(0, 31), st.integers(1, 32), st.integers(0, 40)),
        quick=600, thorough=1000),
    Sub('every-class', check_fields, sweep=every_class),
    Sub('fields', check_fields, lambda: st.tuples(st.sampled_from(sorted(FIELDS) + ['modify_immediate']), gen.U32,
                                                  st.integers(0, 0xffff)), quick=2400, thorough=20000),
    Sub('endianness', check_endian, lambda: gen.U32, quick=1500, thorough=5000),
]

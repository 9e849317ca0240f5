"""C12: the facts obtained from an instruction are the ones of its encoding"""
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Sub, equal, require

RULE = ('Words built from fields (data processing in its three forms, loads and stores, block transfers, branches, '
        'multiplications) with any condition, the facts expected being computed from the fields; and any 32 bit word, '
        'for the facts that have to agree between them. Non-trivial: the word is an instruction.')
ASSUMPTIONS = ['The registers written are the first one of the text of the instruction, as the tests of the repository '
               'say: what single stores, comparisons and branches to registers write or read is not judged, nor the memory access of block transfers.',
               'ADC, SBC and RSC without S: the flags are the ones capstone says, not judged.']
MEMORY, NOREG, PC, SP = 16, 18, 15, 13
NOT_WRITTEN = None


@st.composite
def fields(draw):
    cond = draw(st.one_of(st.just(14), st.integers(0, 14)))
    kind = draw(st.sampled_from(['dp-imm', 'dp-reg', 'dp-rsr', 'mem-imm', 'mem-reg', 'half', 'push', 'pop', 'stm', 'ldm',
                                 'b', 'bl', 'bx', 'blx', 'mul', 'mla', 'long', 'double', 'jump', 'move16', 'unary', 'field',
                                 'exclusive', 'svc', 'multiple', 'str-pc', 'preload']))
    r = [draw(st.one_of(st.integers(0, 12), st.sampled_from([0, 13, 14]))) for _ in range(4)]
    x = draw(st.integers(0, 0xfffff))
    regs = sorted(draw(st.sets(st.integers(0, 12), min_size=2, max_size=draw(st.sampled_from([4, 6, 13])))))
    return [kind, cond, r, x, regs, draw(st.sampled_from([0, 0x1000, 0x10334, 0x7ffffff8, 0xc0008000, 0xfffffff0]))]


def build(case):
    """
    (encoding, expected facts)
    """
    kind, cond, (a, b, c, d), x, regs, addr = case
    f = {'cond': cond, 'branch': False, 'link': False, 'target': None, 'reads_mem': False, 'writes_mem': False,
         'written': NOT_WRITTEN, 'read': NOT_WRITTEN, 'push': False, 'pop': False, 'flags': None}
    if kind.startswith('dp'):
        op, s = x & 15, x >> 4 & 1
        test, move = 8 <= op <= 11, op in (13, 15)
        s = 1 if test else s
        rd, rn = (0 if test else a), (0 if move else b)
        e = op << 21 | s << 20 | rn << 16 | rd << 12
        others = [] if move else [b]
        if kind == 'dp-imm':
            e |= 1 << 25 | x >> 5 & 0xfff
        elif kind == 'dp-reg':
            e |= (x >> 5 & 0x7f) << 5 & 0xf60 | c
            # The sixth bit is the one of the registers giving the shift
            others.append(c)
        else:
            e |= c | (x >> 5 & 3) << 5 | 1 << 4 | d << 8
            others += [c, d]
        f['used'] = set(others) | (set() if test else {a})
        if not test:
            f['written'], f['read'] = {a}, set(others)
        # capstone says that ADC, SBC and RSC always update the flags
        f['flags'] = bool(s) if op not in (5, 6, 7) else None
    elif kind.startswith('mem'):
        load, byte, up = x & 1, x >> 1 & 1, x >> 2 & 1
        pre = x >> 3 & 1 or a == b or b > 12
        w = x >> 4 & 1 if pre and a != b and b < 13 else 0
        e = 1 << 26 | (1 if pre else 0) << 24 | up << 23 | byte << 22 | w << 21 | load << 20 | b << 16 | a << 12
        used = [a, b]
        if kind == 'mem-imm':
            e |= x >> 5 & 0xfff
        else:
            c = c if c < 13 else 1
            if (not pre or w) and c == b:
                c = (b + 1) % 13
            e |= 1 << 25 | c
            used.append(c)
        f['used'] = set(used)
        f['reads_mem' if load else 'writes_mem'] = True
        if load:
            f['written'], f['read'] = {a}, set(used[1:])
    elif kind == 'half':
        load = x & 1
        sh = 1 + x // 2 % 3 if load else 1
        imm = x >> 4 & 1
        a, b, c = [v if v < 13 else 2 for v in (a, b, c)]
        e = 1 << 24 | 1 << 23 | imm << 22 | load << 20 | b << 16 | a << 12 | 0x90 | sh << 5
        e |= ((x >> 5 & 15) << 8 | x >> 9 & 15) if imm else c
        used = [a, b] + ([] if imm else [c])
        f['used'] = set(used)
        f['reads_mem' if load else 'writes_mem'] = True
        if load:
            f['written'], f['read'] = {a}, set(used[1:])
    elif kind in ('push', 'pop'):
        extra = {'push': 14, 'pop': 15}[kind] if x & 1 else None
        regs = list(regs) + ([extra] if extra else [])
        e = (0x92d0000 if kind == 'push' else 0x8bd0000) | sum(1 << r for r in regs)
        f['used'] = {SP} | set(regs)
        f['written'] = f['used'] if kind == 'pop' else set()
        f['read'] = f['used'] if kind == 'push' else {SP}
        f['branch'] = extra == PC
        f[kind] = True
    elif kind in ('stm', 'ldm', 'multiple'):
        # Any of the ways of walking the memory, with write back or not, and the PC among the registers or not
        load = x & 1 if kind == 'multiple' else kind == 'ldm'
        b = b if b < 13 else 3
        if kind == 'multiple':
            regs = sorted(set(regs) | ({13} if x >> 4 & 3 == 0 else set()) | ({14} if x >> 6 & 1 else set()) | ({15} if x >> 7 & 1 and load else set()))
        # A load cannot write the address back over what it loaded
        w = x >> 1 & 1 if b not in regs or not load else 0
        how = x >> 2 & 3 if kind == 'multiple' else 1
        e = 0x8000000 | how << 23 | w << 21 | load << 20 | b << 16 | sum(1 << r for r in regs)
        f['used'] = {b} | set(regs)
        f['written'] = (set(regs) if load else set()) | ({b} if w else set())
        f['read'] = {b} if load else f['used']
        f['branch'] = PC in f['written']
    elif kind == 'long':
        # Two different registers written: umull, umlal, smull, smlal
        lo, hi = a % 13, b % 13
        hi = (hi + 1) % 13 if hi == lo else hi
        op = x & 3
        c, d = c % 13, d % 13
        e = 1 << 23 | op << 21 | (x >> 2 & 1) << 20 | hi << 16 | lo << 12 | c << 8 | 0x90 | d
        f['used'] = {lo, hi, c, d}
        f['written'], f['read'] = {lo, hi}, {c, d} | ({lo, hi} if op & 1 else set())
        f['flags'] = bool(x >> 2 & 1)
    elif kind == 'double':
        load, imm = x & 1, x >> 1 & 1
        a, b, c = a % 6 * 2, b % 13, c % 13
        e = 1 << 24 | 1 << 23 | imm << 22 | b << 16 | a << 12 | (0xd0 if load else 0xf0)
        e |= ((x >> 5 & 15) << 8 | x >> 9 & 15) if imm else c
        rest = {b} | (set() if imm else {c})
        f['used'] = {a, a + 1} | rest
        f['reads_mem' if load else 'writes_mem'] = True
        if load:
            f['written'], f['read'] = {a, a + 1}, rest
    elif kind == 'jump':
        # The PC as the result of an operation or a load: the address is only known when it is moved
        what = x & 3
        b = b % 13
        rot = x >> 10 & 0xff
        if what == 0:
            e = 0x3a0f000 | rot
            f['used'], f['target'] = {PC}, rot
        elif what == 1:
            e = 0x280f000 | b << 16 | rot
            f['used'] = {PC, b}
        elif what == 2:
            e = 0x590f000 | b << 16 | rot
            f['used'], f['reads_mem'] = {PC, b}, True
        else:
            e = 0x1a0f000 | b
            f['used'] = {PC, b}
        f['written'], f['read'] = {PC}, f['used'] - {PC}
        f['branch'] = True
    elif kind == 'move16':
        a = a % 13
        e = (0x3000000 if x & 1 else 0x3400000) | (x >> 1 & 15) << 16 | a << 12 | x >> 5 & 0xfff
        f['used'], f['written'] = {a}, {a}
        f['read'] = set() if x & 1 else None
        f['flags'] = False
    elif kind == 'unary':
        a, b = a % 13, b % 13
        e = [0x16f0f10, 0x6bf0f30, 0x6bf0fb0, 0x6ff0fb0, 0x6af0070, 0x6ef0070, 0x6bf0070, 0x6ff0070][x & 7] | a << 12 | b
        f['used'], f['written'], f['read'] = {a, b}, {a}, {b}
        f['flags'] = False
    elif kind == 'field':
        a, b = a % 13, b % 13
        lsb = x & 31
        e = (0x7e00050 if x >> 5 & 1 else 0x7a00050) | (x >> 6 & 31) % (32 - lsb) << 16 | a << 12 | lsb << 7 | b
        f['used'], f['written'], f['read'] = {a, b}, {a}, {b}
    elif kind == 'exclusive':
        a, b = a % 13, b % 13
        e = [0x1900f9f, 0x1d00f9f, 0x1f00f9f][x % 3] | b << 16 | a << 12
        f['used'], f['written'], f['read'] = {a, b}, {a}, {b}
        f['reads_mem'] = True
    elif kind == 'svc':
        e = 0xf000000 | x
        f['used'], f['written'], f['read'] = set(), set(), set()
    elif kind == 'preload':
        # Has no condition, and no register but the ones of its address
        b, c = b % 13, c % 13
        e = 0x550f000 | x >> 4 & 1 << 23 | b << 16 | (1 << 25 | c if x & 1 else x >> 5 & 0xfff)
        f['cond'] = 14
        f['used'], f['reads_mem'] = {b} | ({c} if x & 1 else set()), True
    elif kind == 'str-pc':
        # Storing the PC, or using it as address, is not a branch
        b, c = b % 13, c % 13
        e, f['used'], f['writes_mem'] = [(0x580f000 | b << 16, {PC, b}, True), (0x58f0004 | b << 12, {PC, b}, True),
                                         (0x59f0004 | b << 12, {PC, b}, False), (0x08f0000 | b << 12 | c, {PC, b, c}, False)][x & 3]
        f['reads_mem'] = x & 3 == 2
        if x & 3 == 0:
            # By convention, stores write their first register
            return None
        if x & 3 > 1:
            f['written'], f['read'] = {b}, f['used'] - {b} | ({c} if x & 3 == 3 else set())
    elif kind in ('b', 'bl'):
        off = (x - 0x80000) & 0xffffff
        e = (0xa000000 if kind == 'b' else 0xb000000) | off
        f['used'] = set()
        f['branch'], f['link'] = True, kind == 'bl'
        f['target'] = (addr + 8 + 4 * (x - 0x80000)) & 0xffffffff
    elif kind in ('bx', 'blx'):
        e = (0x12fff10 if kind == 'bx' else 0x12fff30) | b
        f['used'] = {b}
        f['branch'], f['link'] = True, kind == 'blx'
    else:
        # Distinct, low registers
        pool = [r for r in range(13)]
        rd, rm, rs, ra = [pool.pop((v + x) % len(pool)) for v in (a, b, c, d)]
        e = (1 << 21 if kind == 'mla' else 0) | (x & 1) << 20 | rd << 16 | (ra << 12 if kind == 'mla' else 0) | rs << 8 | 0x90 | rm
        f['used'] = {rd, rm, rs} | ({ra} if kind == 'mla' else set())
        f['written'], f['read'] = {rd}, f['used'] - {rd}
        f['flags'] = bool(x & 1)
    return (15 if kind == 'preload' else cond) << 28 | e, f


def check_fields(ctx, case):
    from semantic_codec.architecture.capstone_instruction import CAPSInstruction
    built = build(case)
    if built is None:
        return False
    word, f = built
    addr = case[5]
    if not gen.decodable(word):
        ctx.label('undefined: ' + case[0])
        return False
    i = CAPSInstruction(word, addr)
    what = ' of {:#010x} ({})'.format(word, gen.text(word, addr))
    require(not i.is_undefined and not i.ignore, 'an instruction is taken as undefined:' + what)
    equal(i.encoding, word, 'encoding')
    equal(i.address, addr, 'address')
    equal(i.conditional_field, f['cond'], 'condition' + what)
    equal(sorted(i.registers_used()), sorted(f['used']), 'registers used' + what)
    if f['written'] is not NOT_WRITTEN:
        equal(set(i.registers_written()), f['written'], 'registers written' + what)
        if f['read'] is not None:
            equal(set(i.registers_read()), f['read'], 'registers read' + what)
    equal(bool(i.is_branch), f['branch'], 'branch' + what)
    if f['link'] is not None:
        equal(bool(i.is_branch_with_link), f['link'], 'branch with link' + what)
    equal(i.jumping_address, f['target'], 'target' + what)
    equal(bool(i.is_push_pop), f['push'] or f['pop'], 'push or pop' + what)
    equal(bool(i.is_a('push')), f['push'], 'push' + what)
    equal(bool(i.is_a('pop')), f['pop'], 'pop' + what)
    memory = f['reads_mem'] or f['writes_mem']
    if case[0] not in ('push', 'pop', 'ldm', 'stm', 'multiple'):
        equal(MEMORY in i.storages_read(), f['reads_mem'], 'memory read' + what)
        equal(MEMORY in i.storages_written(), f['writes_mem'], 'memory written' + what)
        equal(set(i.storages_used()), f['used'] | ({MEMORY} if memory else set()) or {NOREG}, 'storages used' + what)
    equal(PC in i.storages_written(), f['branch'] or (f['written'] is not None and PC in f['written']), 'PC written' + what)
    if f['flags'] is not None:
        equal(bool(i.modifies_flags()), f['flags'], 'flags modified' + what)
    equal(str(i), gen.text(word, addr), 'text' + what)
    ctx.label(case[0])
    return True


def check_any(ctx, case):
    from semantic_codec.architecture.capstone_instruction import CAPSInstruction
    word, addr = case
    i = CAPSInstruction(word, addr)
    equal(i.encoding, word, 'encoding')
    equal(i.address, addr, 'address')
    what = ' of {:#010x}'.format(word)
    equal(bool(i.is_undefined), not gen.decodable(word), 'undefined' + what)
    if i.is_undefined:
        require(i.ignore, 'undefined words are ignored' + what)
        ctx.label('undefined')
        return False
    used, written, read = i.registers_used(), i.registers_written(), i.registers_read()
    for name, v in (('used', used), ('written', written), ('read', read)):
        equal(len(v), len(set(v)), 'registers {} repeated{}: amount'.format(name, what))
    equal(set(written) | set(read), set(used), 'registers read or written' + what)
    top = word >> 28
    # HVC does not have conditions
    if top < 14 and not gen.text(word, addr).startswith('hvc'):
        equal(i.conditional_field, top, 'condition' + what)
    require(0 <= i.conditional_field <= 14, 'condition {!r}' + what, i.conditional_field)
    su, sr, sw = list(i.storages_used()), list(i.storages_read()), list(i.storages_written())
    require(set(used) <= set(su) and set(su) - set(used) <= {MEMORY, NOREG}, 'storages used {!r}' + what, su)
    require((NOREG in su) == (su == [NOREG]), 'storages used {!r}' + what, su)
    equal(set(sr) - {MEMORY}, set(read), 'storages read' + what)
    equal(set(sw) - {MEMORY, PC}, set(written) - {PC}, 'storages written' + what)
    equal(MEMORY in su, MEMORY in sr or MEMORY in sw, 'memory used' + what)
    require(not (MEMORY in sr and MEMORY in sw), 'memory both read and written' + what)
    link = top < 15 and (word >> 24 & 15 == 0xb or word & 0x0ffffff0 == 0x12fff30) or word >> 25 == 0x7d
    equal(bool(i.is_branch_with_link), link, 'branch with link' + what)
    if i.is_branch:
        require(PC in sw, 'branches write the PC:' + what)
    else:
        require(i.jumping_address is None, 'jumping address without branch' + what)
    # Asking again gives the same
    equal([list(i.storages_used()), list(i.storages_read()), list(i.storages_written())], [su, sr, sw], 'storages' + what)
    equal([i.registers_used(), i.registers_written(), i.registers_read()], [used, written, read], 'registers' + what)
    ctx.label('instruction')
    return True


FACTS = ['registers_used', 'registers_read', 'registers_written', 'storages_used', 'storages_read', 'storages_written',
         'is_branch', 'is_branch_with_link', 'jumping_address', 'is_push_pop', 'conditional_field', 'opcode_field',
         'modifies_flags', 'is_undefined', 'ignore', 'encoding', 'address', '__str__']


def ask(i, name):
    v = getattr(i, name)
    v = v() if callable(v) else v
    return list(v) if isinstance(v, list) else bool(v) if name.startswith('is_') else v


def check_order(ctx, case):
    """The facts do not depend on what else was asked before"""
    word, addr, names = case
    if not gen.decodable(word):
        return False
    i = gen.inst(word, addr)
    for name in names:
        got, alone = ask(i, name), ask(gen.inst(word, addr), name)
        equal(got, alone, '{} of {:#010x} after asking {!r}'.format(name, word, names))
    return True


def check_parse(ctx, case):
    """The same word as a number and as text"""
    from semantic_codec.architecture.capstone_instruction import CAPSInstruction
    word, style = case
    s = '{:08x}'.format(word)
    s = {0: s, 1: s.upper(), 2: ' '.join(s[k:k + 2] for k in range(0, 8, 2)), 3: '0x' + s}[style]
    equal(CAPSInstruction(s, 4).encoding, word, 'encoding of the text {!r}'.format(s))
    return True


@st.composite
def branch_lists(draw):
    n = draw(st.integers(1, 12))
    at = draw(st.integers(0, n - 1))
    addrs = draw(gen.addresses(n))
    target = draw(st.one_of(st.sampled_from(addrs), st.integers(addrs[0] // 4 - 4, addrs[-1] // 4 + 4).map(lambda x: 4 * x)))
    return [addrs, at, target]


def check_branch_to(ctx, case):
    addrs, at, target = case
    off = (target - addrs[at] - 8) // 4 & 0xffffff
    prog = [gen.inst(0xea000000 | off if k == at else 0xe1a00000, a) for k, a in enumerate(addrs)]
    got = prog[at].branch_to(prog)
    if target in addrs:
        require(got is prog[addrs.index(target)], 'branch at {:#x} to {:#x} goes to {!r}', addrs[at], target, got)
    else:
        require(got is None, 'branch out of the program goes to {!r}', got)
    return target in addrs


def check_plain_branch(ctx, case):
    """What the base of the instructions tells by itself of a direct branch, where it goes included"""
    from semantic_codec.architecture.instruction import Instruction
    addr, off, link, cond, fixed = case
    word = cond << 28 | (0xb if link else 0xa) << 24 | off

    class Plain(Instruction):
        is_undefined = False
        is_branch = fixed != 'other'

    i = Plain(word, addr)
    want = (addr + 8 + 4 * (off - (off >> 23 << 24))) & 0xffffffff if Plain.is_branch else None
    for _ in range(2):
        equal(i.jumping_address, want, 'target of the branch {:#010x} at {:#x}'.format(word, addr))
    equal(bool(i.is_branch_with_link), bool(link and Plain.is_branch), 'branch with link {:#010x}'.format(word))
    equal((i.encoding, i.address), (word, addr), 'encoding and address')
    require(not i.ignore, 'the instruction is ignored')
    others = [gen.inst(0xe1a00000, a) for a in sorted({addr, (addr + 8) & 0xffffffff} | ({want} if want is not None and fixed == 'inside' else set()))]
    got = i.branch_to(others)
    require((got is None) if want not in [x.address for x in others] else got.address == want, 'branch to {!r} goes to {!r}', want, got)
    return Plain.is_branch


def check_encodings(ctx, case):
    """Instructions of a list of words, with the ones that are not instructions or not"""
    from semantic_codec.architecture.capstone_instruction import CAPSInstruction
    words, undefined = case
    want = [e for e in words if undefined or gen.decodable(e)]
    args = [undefined] if undefined or len(words) % 2 else []
    got = CAPSInstruction.encodings_to_inst(list(words), *args)
    equal([i.encoding for i in got], want, 'instructions of {!r}'.format(words))
    equal([bool(i.is_undefined) for i in got], [not gen.decodable(e) for e in want], 'instructions undefined of {!r}'.format(words))
    return len(want) < len(words) or undefined


def check_score(ctx, values):
    """Without rules of its own, the score adds the ones of the rules"""
    i = gen.inst(0xe1a00000, 0)
    for k, v in enumerate(values):
        i.scores_by_rule['r{}'.format(k)] = v / 8
    equal(i.score(), sum(values) / 8, 'score')
    return len(values) > 1


SUBS = [
    Sub('fields', check_fields, fields, quick=6000, thorough=60000),
    Sub('any-word', check_any, lambda: st.tuples(st.one_of(U for U in (gen.U32, gen.U32.map(lambda e: e & 0x0fffffff | 0xe0000000), gen.words())),
                                                 st.sampled_from([0, 0x1000])), quick=3000, thorough=60000),
    Sub('order', check_order, lambda: st.tuples(gen.words(), st.sampled_from([0, 0x1000]), st.lists(
        st.sampled_from(FACTS), min_size=2, max_size=8)), quick=500, thorough=10000),
    Sub('text', check_parse, lambda: st.tuples(gen.U32, st.integers(0, 3)), quick=200, thorough=2000),
    Sub('branch-to', check_branch_to, branch_lists, quick=300, thorough=3000),
    Sub('plain-branch', check_plain_branch, lambda: st.tuples(
        st.sampled_from([0, 0x1000, 0x10334, 0xfffffff0]), st.one_of(st.integers(0, 0xffffff), st.integers(-64, 64).map(lambda x: x & 0xffffff)),
        st.booleans(), st.integers(0, 14), st.sampled_from(['inside', 'outside', 'other'])), quick=400, thorough=6000),
    Sub('encodings', check_encodings, lambda: st.tuples(st.lists(gen.any_word(), max_size=6), st.booleans()), quick=200, thorough=3000),
    Sub('score', check_score, lambda: st.lists(st.integers(-8, 8), max_size=6), quick=50, thorough=200),
]

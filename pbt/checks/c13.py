"""C13: reading a disassembly gives the words of the listing, at their addresses, in their functions"""
import os

from hypothesis import strategies as st

from pbt import gen
from pbt.core import Sub, equal, require

RULE = ('Listings in the two formats of the repository, written from generated programs: 0 to 4 sections, 0 to 25 '
        '(300 in the long cases) words (decodable or not), functions and symbols at some of the addresses, several symbols at an address, '
        'symbols out of the code, blank and unreadable lines. Non-trivial: two instructions and one function at least.')

NAME = st.text('abcdefghijklmnopqrstuvwxyz_$.0123456789', min_size=1, max_size=8)


@st.composite
def listings(draw, long=False):
    sections = draw(st.lists(st.sampled_from(['.init', '.plt', '.text', '.fini']), min_size=1, max_size=4, unique=True))
    if long:
        prog = draw(gen.long_program(1, 300))
        words = [[k * len(sections) // len(prog), a, e] for k, (a, e) in enumerate(prog)]
        addrs = [a for a, _ in prog]
    else:
        n = draw(st.integers(0, 25))
        addrs = draw(gen.addresses(n, start=draw(st.sampled_from([0x10330, 0x8, 0, 0xfffff000]))))
        where = sorted(draw(st.lists(st.integers(0, len(sections) - 1), min_size=n, max_size=n)))
        words = [[where[k], a, draw(gen.any_word())] for k, a in enumerate(addrs)]
    symbols = []
    for a in addrs:
        if draw(st.integers(0, 3)) == 0:
            symbols.append([a, draw(NAME)])
            if draw(st.integers(0, 3)) == 0:
                symbols.append([a, draw(NAME)])
    if draw(st.booleans()):
        symbols.append([0x20cf8, '__TMC_END__'])
    return [sections, words, draw(st.permutations(symbols)), draw(st.integers(0, 3))]


def elfio_text(sections, words, symbols, noise):
    lines = ['.functions']
    lines += ['0x{:x};{}'.format(a, name) for a, name in symbols]
    for k, s in enumerate(sections):
        lines += [s]
        for w, a, e in words:
            if w == k:
                lines.append('0x{:x};{:x};{}'.format(a, e, (gen.text(e, a) or 'undefined').replace('\t', ';')))
                if noise & 1 and a % 16 == 0:
                    lines.append('not a line')
        lines += [''] * (noise & 2)
    return '\n'.join(lines) + '\n'


def check_limits(f):
    limits = f.start_addr(), f.final_addr()
    if f.instructions:
        equal(limits, (f.instructions[0].address, f.instructions[-1].address), 'limits of {}'.format(f.name))
    equal(f.length_in_bytes(), 4 * len(f.instructions), 'length of {}'.format(f.name))


def check_elfio(ctx, case):
    from semantic_codec.architecture.disassembler_readers import ElfioTextDisassembleReader
    from semantic_codec.metadata.probabilistic_rules.rules import from_functions_to_list_and_addr
    sections, words, symbols, noise = case
    with open('l.disam', 'w') as f:
        f.write(elfio_text(sections, words, symbols, noise))
    fns, instructions = ElfioTextDisassembleReader('l.disam').read()
    want = [(a, e) for _, a, e in words]
    equal([(i.address, i.encoding) for i in instructions], want, 'instructions')
    names, bodies = {}, {}
    for a, name in symbols:
        names[a] = name
        bodies[a] = []
    current = None
    for a, e in want:
        current = a if a in names else current
        if current is not None:
            bodies[current].append((a, e))
    got = {}
    for f in fns:
        got.setdefault(f.name, []).append([(i.address, i.encoding) for i in f.instructions])
        check_limits(f)
    expected = {}
    for a, name in names.items():
        expected.setdefault(name, []).append(bodies[a])
    equal({k: sorted(v) for k, v in got.items()}, {k: sorted(v) for k, v in expected.items()}, 'functions')
    equal([(i.address, i.encoding) for i in ElfioTextDisassembleReader('l.disam').read_instructions()], want,
          'instructions alone')
    equal(len(ElfioTextDisassembleReader('l.disam').read_functions()), len(fns), 'functions alone')
    flat, limits = from_functions_to_list_and_addr(fns)
    equal([(i.address, i.encoding) for i in flat], sorted(x for b in bodies.values() for x in b), 'words of the functions')
    equal(limits, {b[0][0]: (b[0][0], b[-1][0]) for b in bodies.values() if b}, 'limits of the functions')
    os.remove('l.disam')
    ctx.label('orphans' if sum(map(len, bodies.values())) < len(want) else 'all in functions')
    return len(want) > 1 and bool(names)


def check_text(ctx, case):
    from semantic_codec.architecture.disassembler_readers import TextDisassembleReader
    sections, words, symbols, noise = case
    names = {}
    for a, name in symbols:
        names[a] = name if name[0] not in '.' else 'f' + name
    lines, expected, flat = [], [('no_method', [])], []
    for w, a, e in words:
        s = sections[w]
        if a in names:
            header = '{}:{:08x} <{}>:'.format(s, a, names[a])
            lines += ([''] if noise & 2 else []) + [header]
            expected.append((header, []))
        data = ' '.join('{:02x}'.format(x) for x in e.to_bytes(4, 'little'))
        lines.append('{:>32}:{:08x} {}                      {}'.format(s, a, data, gen.text(e, a) or '<undefined>'))
        if noise & 1 and a % 16 == 0:
            lines.append('')
        expected[-1][1].append((a, e))
        flat.append((a, e))
    with open('l.armasm', 'w') as f:
        f.write('\n'.join(lines) + '\n')
    got = TextDisassembleReader('l.armasm').read_instructions()
    equal([(i.address, i.encoding) for i in got], flat, 'instructions')
    fns = TextDisassembleReader('l.armasm').read_functions()
    equal([[(i.address, i.encoding) for i in f.instructions] for f in fns], [b for _, b in expected], 'words of the functions')
    for f in fns:
        check_limits(f)
    equal([str(f) for f in fns], [h for h, _ in expected], 'names of the functions')
    instructions, functions = TextDisassembleReader('l.armasm').read()
    equal((len(instructions), len(functions)), (len(flat), len(expected)), 'sizes of both')
    os.remove('l.armasm')
    return len(flat) > 1 and len(expected) > 1


def check_convert(ctx, case):
    """Lists and dictionaries of a program"""
    from semantic_codec.metadata.probabilistic_rules.rules import from_instruction_list_to_dict, from_instruction_dict_to_list
    insts = [gen.inst(e, a) for a, e in case]
    d = from_instruction_list_to_dict(insts)
    equal(gen.encodings(d), {a: [e] for a, e in case}, 'dictionary')
    back = from_instruction_dict_to_list(d)
    equal([[(i.address, i.encoding) for i in v] for v in back], [[(a, e)] for a, e in sorted(case)], 'list by address')
    return len(case) > 1


SUBS = [
    Sub('elfio', check_elfio, listings, quick=500, thorough=6000),
    Sub('text', check_text, listings, quick=400, thorough=5000),
    Sub('elfio-long', check_elfio, lambda: listings(long=True), quick=15, thorough=300),
    Sub('text-long', check_text, lambda: listings(long=True), quick=15, thorough=300),
    Sub('conversions', check_convert, lambda: st.lists(st.tuples(st.integers(0, 2 ** 20).map(lambda x: 4 * x), gen.any_word()),
                                                       max_size=15, unique_by=lambda t: t[0]), quick=400, thorough=2000),
]

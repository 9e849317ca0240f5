"""C15: counting the addresses that may have a condition, an instruction or a storage"""
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Sub, equal, require

RULE = ('Damaged programs of 1 to 10 addresses (up to 800 in the long cases) with the candidates of up to 4 lost bits each, in any order, undefined '
        'candidates and discarded ones included, some empty address. Counts are computed again with sets. Non-trivial: an address has two '
        'candidates or more.')


@st.composite
def cases(draw):
    d = draw(gen.damaged(hi=10, undefined_originals=True))
    prog = [[a, draw(st.permutations(es)) if len(es) < 9 else es] for a, es in gen.candidates(d)]
    if draw(st.integers(0, 9)) == 0:
        prog.append([4, []])
    if draw(st.integers(0, 3)) == 0:
        # Few different fields
        w = draw(gen.words())
        prog = [[0x1000 + 4 * k, [w] + draw(st.lists(gen.undefined_words(), max_size=1))] for k in range(draw(st.integers(1, 6)))]
    return [prog, draw(gen.discards())]


def check(ctx, case):
    from semantic_codec.metadata.metadata_collector import CorruptedProgramMetadataCollector, MetadataCollector
    prog, ignored = case
    program = gen.program(prog)
    gen.mark(program, ignored)
    c = CorruptedProgramMetadataCollector()
    c.collect(program)
    wants = {}, {}, {}
    for a, v in program.items():
        facts = set(), set(), set()
        for i in v:
            if not i.ignore:
                facts[0].add(i.conditional_field)
                facts[1].add(i.opcode_field)
                facts[2].update(i.storages_used())
        for f, want in zip(facts, wants):
            for k in f:
                want[k] = want.get(k, 0) + 1
    equal(dict(c.address_with_cond), wants[0], 'addresses per condition')
    equal(dict(c.address_with_op), wants[1], 'addresses per instruction')
    equal(dict(c.address_with_reg), wants[2], 'addresses per storage')
    # Collecting again starts from nothing, after the same program or another one
    c.collect(program)
    c.collect(dict(list(program.items())[:len(program) // 2 + 1]))
    c.collect(program)
    c.collect(program)
    equal([dict(c.address_with_cond), dict(c.address_with_op), dict(c.address_with_reg)], list(wants),
          'addresses per condition, instruction and storage, collected again')
    equal(gen.encodings(program), {a: es for a, es in prog}, 'program after collecting')
    return any(len(es) > 1 for _, es in prog)


@st.composite
def long_cases(draw):
    return [gen.candidates(draw(gen.long_damaged(1, 150))), draw(gen.discards())]


@st.composite
def huge_cases(draw):
    return [gen.candidates(draw(gen.long_damaged(200, 800, 1))), draw(gen.discards())]


def check_bound(ctx, d):
    """Every address that has a field in the original program may have it in the damaged one"""
    from semantic_codec.metadata.metadata_collector import CorruptedProgramMetadataCollector, MetadataCollector
    m, c = MetadataCollector(), CorruptedProgramMetadataCollector()
    m.collect([gen.inst(e, a) for a, e, _ in d])
    c.collect(gen.program(gen.candidates(d)))
    for name, have, may in (('condition', m.condition_count, c.address_with_cond),
                            ('instruction', m.instruction_count, c.address_with_op),
                            ('storage', m.storage_count, c.address_with_reg)):
        for k, n in have.items():
            require(n <= may.get(k, 0), '{} {}: {} words have it, only {} addresses may', name, k, n, may.get(k, 0))
    return any(m for _, _, m in d)


SUBS = [
    Sub('collect', check, cases, quick=1000, thorough=6000),
    Sub('bound', check_bound, lambda: gen.damaged(hi=10), quick=500, thorough=3000),
    Sub('collect-long', check, long_cases, quick=12, thorough=200),
    Sub('collect-huge', check, huge_cases, quick=6, thorough=60),
    Sub('bound-long', check_bound, lambda: gen.long_damaged(1, 200), quick=12, thorough=200),
]

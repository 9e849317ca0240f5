"""C19: the constraint problem of a damaged program has exactly the programs that match the metadata as solutions"""
import itertools

from hypothesis import strategies as st

from pbt import gen
from pbt.core import Sub, equal, require

RULE = ('Damaged programs of 2 to 5 words, up to 300 combinations of candidates, with candidates discarded, undefined or '
        'repeated in other addresses, and the metadata of the program sent or of a slightly different one. The solutions '
        'are compared with the ones of trying every combination. Non-trivial: there is a solution and there are more '
        'combinations than solutions.')


@st.composite
def cases(draw):
    n = draw(st.integers(1, 5))
    pool = draw(st.lists(gen.words(2), min_size=1, max_size=3))
    sent, cands, total = [], [], 1
    for a in draw(gen.addresses(n)):
        e = draw(st.sampled_from(pool))
        kind = draw(st.sampled_from(['bits', 'bits', 'swap', 'none', 'other', 'undefined']))
        es = [e]
        if kind == 'bits':
            es = gen.submasks(sum(1 << b for b in draw(st.sets(st.integers(0, 31), min_size=1, max_size=3))))
            es = [e ^ m for m in es]
        elif kind == 'swap':
            # Candidates having the words of other addresses
            es = [e] + draw(st.lists(st.sampled_from(pool), max_size=2))
        elif kind == 'other':
            es = [e] + draw(st.lists(gen.any_word(), max_size=2))
        elif kind == 'undefined':
            # Nothing is known about the address, or the right choice is the one that counts nothing
            e = draw(gen.undefined_words())
            es = [e] + draw(st.lists(st.sampled_from(pool), max_size=2))
        es = list(dict.fromkeys(es))
        if total * len(es) > 300:
            es = [e]
        total *= len(es)
        es = draw(st.permutations(es))
        ignored = [x for x in es if draw(st.integers(0, 7 if x != e else 15)) == 0]
        sent.append([a, e])
        cands.append([a, es, ignored])
    empty = draw(st.integers(0, 5)) == 0
    # Metadata of the program sent, or with one word changed
    meta = [e for _, e in sent]
    if draw(st.integers(0, 4)) == 0:
        meta[draw(st.integers(0, n - 1))] = draw(st.one_of(gen.words(2), gen.undefined_words()))
    return [cands, meta, empty]


def fields(i):
    return [('condition', i.conditional_field)], [('opcode', i.opcode_field)], [('storage', s) for s in i.storages_used()]


def counts(insts):
    result = {}
    for i in insts:
        for group in fields(i):
            for f in group:
                result[f] = result.get(f, 0) + 1
    return result


def check(ctx, case):
    from semantic_codec.metadata.metadata_collector import MetadataCollector
    from semantic_codec.solution.solution_builders import ProblemBuilder
    cands, meta, empty = case
    program = {}
    for a, es, ignored in cands:
        program[a] = [gen.inst(e, a) for e in es]
        for i in program[a]:
            if i.encoding in ignored:
                i.ignore = True
    order = [a for a, _, _ in cands]
    if empty:
        # Addresses having no candidates have no variable
        program[2] = []
    collector = MetadataCollector()
    collector.collect([gen.inst(e, a) for (a, _, _), e in zip(cands, meta)])
    want_counts = counts([gen.inst(e, a) for (a, _, _), e in zip(cands, meta) if gen.decodable(e)])
    want, combos = [], 0
    for combo in itertools.product(*[program[a] for a in order]):
        combos += 1
        if counts([i for i in combo if not i.is_undefined and i.encoding not in dict((c[0], c[2]) for c in cands)[i.address]]) == want_counts:
            want.append(tuple(i.encoding for i in combo))
    got = []
    for s in ProblemBuilder().build(program, collector).getSolutions():
        equal(sorted(s), sorted(order), 'addresses of a solution')
        got.append(tuple(s[a].encoding for a in order))
    equal(sorted(got), sorted(want), 'solutions')
    ctx.label('{} solutions'.format('1' if len(want) == 1 else 'some' if want else '0'))
    ctx.note('combinations', combos)
    ctx.note('solutions', len(want))
    return 0 < len(want) < combos


SUBS = [Sub('brute-force', check, cases, quick=1200, thorough=12000)]

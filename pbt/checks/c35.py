"""C35: the register distance rule rewards the candidates whose storages may be written at the distances of the metadata"""
from fractions import Fraction

from hypothesis import strategies as st

from pbt import gen
from pbt.checks import c31
from pbt.core import Sub, equal, require

RULE = ('Damaged programs (up to 50 words in the long cases) with values written and read at any distance, lists of registers, gaps, and candidates discarded or '
        'undefined; the rule is run at every address in any order, alone and within the rules of the whole recovery. '
        'Non-trivial: some candidate has a score between zero and one that is not negligible.')
TINY = 1e-9


@st.composite
def chains(draw):
    """Writes and reads of a few registers, by instructions of one or several registers, of coprocessors or not"""
    n = draw(st.integers(2, 10))
    d = []
    low = st.integers(0, 3)
    kinds = st.one_of(st.integers(0, 7), st.integers(8, 10)) if draw(st.integers(0, 3)) == 3 else st.integers(0, 7)
    for a in draw(gen.addresses(n, gaps=draw(st.booleans()))):
        kind = draw(kinds)
        x, y, z = draw(low), draw(low), draw(low)
        e = [0x3a00001 | x << 12, 0x1a00000 | x << 12 | y, 0x800000 | y << 16 | x << 12 | z, 0x1500000 | y << 16 | z,
             0x8bd0000 | draw(st.integers(1, 15)) | 16, 0x8900000 | y << 16 | draw(st.integers(1, 15)),
             0x5900000 | y << 16 | x << 12, 0x5800000 | y << 16 | x << 12, 0xe300b00 | y << 16 | x << 12 | z,
             0xc500b10 | x << 16 | y << 12 | z, 0xc400b10 | x << 16 | y << 12 | z][kind] | draw(st.sampled_from([14, 14, 14, 0])) << 28
        places = draw(st.sampled_from([[], [0, 1], [12, 13], [16, 17], [0, 1, 12, 13, 16, 17, 20, 28], list(range(32))]))
        bits = draw(st.sets(st.sampled_from(places), max_size=3)) if places else []
        mask = sum(1 << b for b in bits)
        if draw(st.integers(0, 14)) == 0:
            e, mask = draw(gen.undefined_words()), 0
        d.append([a, e, mask])
    return [d, [0], draw(gen.discards()), draw(st.integers(0, 2 ** 16))]


def prepared(case):
    from semantic_codec.metadata.metadata_collector import MetadataCollector
    d, _, discards, seed = case[:4]
    collector = MetadataCollector()
    collector.collect([gen.inst(e, a) for a, e, _ in d])
    program = gen.program(gen.candidates(d))
    gen.mark(program, discards)
    return collector, program


def expected(program, collector, a, i):
    reads = [] if i.ignore else list(i.storages_read())
    known = [r for r in reads if r in collector.storage_min_dist]
    if not known:
        return Fraction(0)
    # As the metadata counts them, the distance to the instruction right before is zero
    lo = min(collector.storage_min_dist[r] for r in known)
    hi = max(collector.storage_max_dist[r] for r in known)
    best = dict.fromkeys(reads, Fraction(0))
    for k in range(lo, hi + 1):
        cands = [x for x in program.get(a - 4 * (k + 1), []) if not x.ignore]
        for x in cands:
            written = list(x.storages_written())
            for r in set(written) & set(reads):
                best[r] = max(best[r], Fraction(written.count(r), len(written) * len(cands)))
    return sum((best[r] for r in reads), Fraction(0)) / len(reads)


def check(ctx, case):
    import random
    from semantic_codec.metadata.probabilistic_rules.distance_rule import RegisterReadDistance
    collector, program = prepared(case)
    before = gen.encodings(program)
    discarded = [i.ignore for a in program for i in program[a]]
    rule = RegisterReadDistance(program, collector=collector)
    order = list(program)
    random.Random(case[3]).shuffle(order)
    for a in order + order[:2]:
        rule.recover(a)
    equal(gen.encodings(program), before, 'candidates after the rule')
    equal([i.ignore for a in program for i in program[a]], discarded, 'discarded after the rule')
    some = False
    for a in program:
        for i in program[a]:
            what = ' of {} at {:#x}'.format(i if not i.is_undefined else hex(i.encoding), a)
            want = float(expected(program, collector, a, i))
            got = i.score()
            require(0 <= got <= 1 and abs(got - want) < TINY, 'score {!r}, expected {!r}' + what, got, want)
            some = some or 0 < want < 1
            ctx.label('no' if want == 0 else 'sure' if want == 1 else 'some')
    return some


def check_whole(ctx, case):
    """Every rule is applied once to the addresses that have something to recover, and only to them"""
    from semantic_codec.metadata.probabilistic_rules import counting_rules, distance_rule, rules
    from semantic_codec.metadata.recuperator import Recuperator
    collector, program = prepared(case)
    before = gen.encodings(program)
    discarded = [i.ignore for a in program for i in program[a]]
    # Some cases have values of the model of their own
    model = {'model': gen.model(case[-1])} if isinstance(case[-1], dict) else {}
    Recuperator(collector, program, **model).recover()
    equal(gen.encodings(program), before, 'candidates after the recovery')
    equal([i.ignore for a in program for i in program[a]], discarded, 'discarded after the recovery')
    total = {a: [0.0] * len(v) for a, v in program.items()}
    for make in (rules.ControlFlowBehavior, counting_rules.ConditionalCount, counting_rules.InstructionCount,
                 counting_rules.RegisterCount, distance_rule.RegisterReadDistance):
        _, other = prepared(case)
        rule = make(other, collector=collector, **model)
        for a in sorted(other, reverse=True):
            if len(other[a]) > 1:
                rule.recover(a)
                for k, i in enumerate(other[a]):
                    total[a][k] += i.score()
    for a in program:
        for k, i in enumerate(program[a]):
            require(abs(i.score() - total[a][k]) < TINY, 'score {!r} of {} at {:#x}, the rules alone give {!r}', i.score(),
                    i if not i.is_undefined else hex(i.encoding), a, total[a][k])
    return any(len(v) > 1 for v in program.values())


SUBS = [
    Sub('rule', check, chains, quick=800, thorough=6000),
    Sub('any-program', check, c31.any_programs, quick=400, thorough=3000),
    Sub('long', check, c31.long_programs, quick=12, thorough=200),
    Sub('whole', check_whole, chains, quick=300, thorough=2000),
    Sub('whole-models', check_whole, lambda: st.tuples(chains(), gen.model_values()).map(lambda x: x[0] + [x[1]]), quick=60, thorough=600),
]

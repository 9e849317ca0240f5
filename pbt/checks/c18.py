"""C18: the counting rules share the occurrences of the metadata among the candidates"""
from fractions import Fraction

from hypothesis import strategies as st

from pbt import gen
from pbt.core import Sub, equal, require

RULE = ('Damaged programs of 1 to 8 words (up to 120 in the long cases) with up to 3 (6) lost bits each, and the three counting rules. The score of a '
        'candidate is computed again: what is left of each of its fields, among the candidates having it. Non-trivial: '
        'an address has two candidates or more.')
NAMES = ['ConditionalCount', 'InstructionCount', 'RegisterCount']


def fields(name, i):
    return [i.conditional_field] if name == NAMES[0] else [i.opcode_field] if name == NAMES[1] else list(i.registers_used())


def count(name, m):
    return dict(m.condition_count if name == NAMES[0] else m.instruction_count if name == NAMES[1] else m.storage_count)


@st.composite
def cases(draw):
    return [draw(gen.damaged(hi=8, max_bits=draw(st.sampled_from([2, 3, 3, 3, 6])), undefined_originals=True)), draw(st.sampled_from(NAMES)),
            draw(st.integers(0, 1)), draw(st.one_of(gen.discards(), st.lists(st.integers(0, 30), max_size=16)))]


@st.composite
def long_cases(draw):
    return [draw(gen.long_damaged(1, 120)), draw(st.sampled_from(NAMES)), draw(st.integers(0, 1)), draw(gen.discards())]


def check(ctx, case):
    from semantic_codec.metadata.metadata_collector import MetadataCollector
    from semantic_codec.metadata.probabilistic_rules import counting_rules
    d, name, back, ignored = case
    cands = gen.candidates(d)
    collector = MetadataCollector()
    collector.collect([gen.inst(e, a) for a, e, _ in d])
    before = count(name, collector)
    program = gen.program(cands)
    gen.mark({a: [i for i in program[a] if i.encoding != e] for a, e, _ in d}, ignored)
    rule = getattr(counting_rules, name)(program, collector=collector)
    for a in sorted(program, reverse=bool(back)):
        rule.recover(a)
    equal(count(name, collector), before, 'metadata after the rule')
    left, among = dict(before), {}
    for v in program.values():
        valid = [i for i in v if not i.ignore]
        if len(valid) == 1:
            # The only one left, wherever it is in the list, takes an occurrence
            for f in fields(name, valid[0]):
                if f in left:
                    left[f] -= 1
            ctx.label('alone' if len(v) == 1 else 'alone among discarded, first' if valid[0] is v[0] else 'alone among discarded')
        else:
            for i in valid:
                for f in fields(name, i):
                    among[f] = among.get(f, 0) + 1
    checked = 0
    for a, v in program.items():
        for i in v:
            if i.ignore:
                equal(i.scores_by_rule, {}, 'scores of an undefined or discarded word')
                continue
            fs = fields(name, i)
            want = sum(Fraction(left[f], among[f]) / len(fs) for f in fs if f in left and f in among)
            if name == 'RegisterCount' and i.is_branch:
                want += Fraction(1, 10 ** 6)
            equal(len(i.scores_by_rule), 1, 'scores of {}: amount'.format(i))
            got = i.score()
            require(abs(got - want) < 1e-9, 'score {!r} of {} at {:#x}, expected {!r}', got, i, a, float(want))
            checked += 1
    ctx.label(name)
    return checked > len(program)


SUBS = [
    Sub('shares', check, cases, quick=1600, thorough=6000),
    Sub('shares-long', check, long_cases, quick=12, thorough=200),
]

"""C17: the scores of the candidates are probabilities, combined from their evidence, whatever the order"""
import os
import re

from hypothesis import strategies as st

from pbt import gen
from pbt.checks import c16
from pbt.core import Sub, equal, require

RULE = ('Damaged programs of up to 14 words in up to four functions (60 words in seven in the long cases), scored once. Evidence counted from the metadata is '
        'computed again, the scores are combined again from the evidence, and the program is scored again with its '
        'addresses and candidates in another order. Non-trivial: an address has two candidates or more. Combination of '
        'evidence: any subset of the kinds, with probabilities that are multiples of 1/8. Reports: the ones of whole '
        'recoveries; non-trivial: a score is told.')


def scored(cands, original, fns, times=1, model=None):
    from semantic_codec.metadata.metadata_collector import MetadataCollector
    from semantic_codec.metadata.recuperator import ProbabilisticRecuperator
    collector = MetadataCollector()
    collector.collect(original)
    program = gen.program(cands)
    for _ in range(times):
        ProbabilisticRecuperator(collector, program, functions=fns, **({'model': model} if model else {})).recover()
    return program, collector


def prepare(case):
    from semantic_codec.metadata.probabilistic_rules.rules import from_functions_to_list_and_addr
    d, starts, _, seed = case
    flat, fns = from_functions_to_list_and_addr(c16.functions(d, starts))
    return d, flat, fns, gen.candidates(d)


def near(x, y):
    return abs(x - y) < 1e-9


def product(scores, kinds):
    p = 1
    for k in kinds:
        p *= scores.get(k, 1)
    return p


def kinds(i):
    return ['pc', 'po', 'pcfg'] + (['pbd'] if i.is_branch else ['pr', 'pupo'] if i.is_push_pop else ['pr', 'prd'])


def expected_remove(scores, i):
    if i.is_undefined or min(scores.values(), default=2) == 0:
        return 0
    if max(scores.get('pc', 1), scores.get('po', 1)) == 1:
        return 1
    return product(scores, kinds(i))


def check_evidence(ctx, case):
    from semantic_codec.metadata.metadata_collector import CorruptedProgramMetadataCollector
    d, flat, fns, cands = prepare(case[:4])
    if len(case) > 4:
        # Only some functions are known, or none is
        fns = {a: v for a, v in fns.items() if a in case[4]}
        ctx.label('some functions known' if fns else 'no function known')
    values = case[5] if len(case) > 5 else {}
    model = gen.model(values)
    program, m = scored(cands, flat, fns or None, model=model if values else None)
    may = CorruptedProgramMetadataCollector()
    may.collect(program)
    lowest, highest = min(program), max(program)
    current = lowest
    for a in sorted(program):
        current = a if a in fns else current
        for i in program[a]:
            what = ' of {} at {:#x}'.format(i if not i.is_undefined else hex(i.encoding), a)
            s = i.scores_by_rule
            if i.is_undefined:
                equal(s, {}, 'evidence' + what)
                continue
            for k, v in s.items():
                require(0 <= v <= 1, 'evidence {} is {!r}' + what, k, v)
            c, o = i.conditional_field, i.opcode_field
            require(near(s['pc'], m.condition_count.get(c, 0) / may.address_with_cond[c]), 'pc {!r}' + what, s['pc'])
            require(near(s['po'], m.instruction_count.get(o, 0) / may.address_with_op[o]), 'po {!r}' + what, s['po'])
            optional = {'pcfg': a != lowest, 'pbd': bool(i.is_branch), 'pupo': bool(i.is_push_pop),
                        'pr': not i.is_branch and not i.is_push_pop,
                        'prd': a != lowest and not i.is_branch and not i.is_push_pop}
            for k, present in optional.items():
                equal(k in s, present, 'presence of {}'.format(k) + what)
            if optional['pr']:
                want = min(m.storage_count.get(r, 0) / may.address_with_reg[r] for r in i.storages_used())
                require(near(s['pr'], want), 'pr {!r}, expected {!r}' + what, s['pr'], want)
            if optional['pbd']:
                j = i.jumping_address
                if j is None:
                    want = model.just_any_jump_is_valid * 2
                elif current in fns and current <= j <= fns[current][1]:
                    want = model.branch_to_this_method
                elif j in fns:
                    want = model.branch_to_other_method_start
                elif j < lowest or j > highest:
                    want = model.just_any_jump_is_valid
                else:
                    want = model.just_any_jump_is_valid * 2
                require(near(s['pbd'], want), 'pbd {!r}, expected {!r}, jumping to {!r}' + what, s['pbd'], want, j)
            score = i.score()
            require(0 <= score <= 1, 'score {!r}' + what, score)
            require(near(score, expected_remove(s, i)), 'score {!r}, expected {!r} from {!r}' + what, score,
                    expected_remove(s, i), s)
    return any(len(es) > 1 for _, es in cands)


@st.composite
def configured(draw):
    """Some of the functions, and values for the model"""
    case = draw(c16.cases())
    addresses = [case[0][s][0] for s in case[1] if s < len(case[0])]
    return case + [[a for a in addresses if draw(st.integers(0, 2)) == 0], draw(gen.model_values())]


@st.composite
def shuffles(draw):
    case = draw(c16.cases())
    return case + [draw(st.randoms(use_true_random=False)).randint(0, 2 ** 20)]


def all_scores(program):
    return {a: {i.encoding: (dict(i.scores_by_rule), None if i.is_undefined else i.score()) for i in v}
            for a, v in program.items()}


def check_order(ctx, case):
    import random
    d, flat, fns, cands = prepare(case[:4])
    base = all_scores(scored(cands, flat, fns)[0])
    r = random.Random(case[4])
    other = [[a, r.sample(es, len(es))] for a, es in r.sample(cands, len(cands))]
    got = all_scores(scored(other, flat, fns)[0])
    for a in base:
        for e in base[a]:
            equal(got[a][e], base[a][e], 'scores of {:#x} at {:#x} with the candidates in another order'.format(e, a))
    again = all_scores(scored(cands, flat, fns, times=2)[0])
    for a in base:
        for e in base[a]:
            equal(again[a][e], base[a][e], 'scores of {:#x} at {:#x} computed twice'.format(e, a))
    return any(len(es) > 1 for _, es in cands)


@st.composite
def combos(draw):
    names = ['pc', 'po', 'pcfg', 'pbd', 'pr', 'pupo', 'prd']
    chosen = draw(st.lists(st.sampled_from(names), unique=True))
    value = st.one_of(st.integers(0, 8), st.integers(1, 8), st.just(8))
    return [draw(st.one_of(gen.words(), gen.block_transfer(), gen.branch_word())), {k: draw(value) for k in chosen}]


def check_combination(ctx, case):
    from semantic_codec.metadata.recuperator import probabilistic_rules, probabilistic_rules_remove_step
    word, eighths = case
    if not gen.decodable(word):
        return False
    i = gen.inst(word, 0x1000)
    s = {k: v / 8 for k, v in eighths.items()}
    given = dict(s)
    got = probabilistic_rules(s, i)
    require(near(got, product(s, kinds(i))), 'score {!r} of {}, expected {!r} from {!r}', got, i, product(s, kinds(i)), s)
    got = probabilistic_rules_remove_step(s, i)
    require(near(got, expected_remove(s, i)), 'score to discard {!r} of {}, expected {!r} from {!r}', got, i,
            expected_remove(s, i), s)
    equal(s, given, 'evidence after scoring')
    ctx.label('branch' if i.is_branch else 'push or pop' if i.is_push_pop else 'other')
    return len(s) > 1


def check_reports(ctx, case):
    """What the reports of a whole recovery tell: the score to discard in each pass, and the product of the evidence once it ends"""
    import recover_program
    from semantic_codec.metadata.recuperator import ProbabilisticRecuperator
    d, starts, _, seed = case
    for x in os.listdir('.'):
        if x.endswith('.txt'):
            os.remove(x)
    recover_program.run_recovery(c16.functions(d, starts), c16.Masks(gen.candidates(d), seed), ProbabilisticRecuperator)
    passes = 0
    while os.path.exists('instructions{}.txt'.format(passes + 1)):
        passes += 1
    told = 0
    for k in range(1, passes + 1):
        name = 'instructions{}.txt'.format(k)
        for line in open(name).read().split('\n'):
            m = re.match(r'X?(0x[0-9a-f]+) (?:\+\+|--) \[(\d+)\] .* : ([0-9.]+): --> (.*)$', line)
            if not m:
                continue
            i = gen.inst(int(m.group(2)), int(m.group(1), 16))
            if i.is_undefined:
                continue
            s = {x: float(v) for x, v in re.findall(r' (\w+): ([0-9.]+) --', m.group(4))}
            require(s, 'no evidence in {}: {}', name, line)
            score, want = float(m.group(3)), product(s, kinds(i))
            # The last two reports come after the passes
            if k <= passes - 2:
                want = expected_remove(s, i)
                if min(s.values()) == 0 and max(s.get('pc', 1), s.get('po', 1)) == 1:
                    # Nothing, or too little to be told
                    want = score if score in (0, 1) else want
            require(abs(score - want) < 1e-5, 'score {!r} in {}, expected {!r}: {}', score, name, want, line)
            told += 1
        os.remove(name)
    ctx.note('scores told', told)
    return told > 0


@st.composite
def long_cases(draw):
    return draw(gen.long_functions(1, 60)) + ['masks', draw(st.integers(0, 2 ** 16))]


SUBS = [
    Sub('evidence', check_evidence, c16.cases, quick=425, thorough=4000),
    Sub('evidence-long', check_evidence, long_cases, quick=10, thorough=150),
    Sub('evidence-configured', check_evidence, configured, quick=80, thorough=1000),
    Sub('order', check_order, shuffles, quick=204, thorough=2000),
    Sub('reports', check_reports, c16.cases, quick=60, thorough=800),
    Sub('combination', check_combination, combos, quick=2550, thorough=15000),
]

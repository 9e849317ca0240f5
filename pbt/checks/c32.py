"""C32: the control flow rule rewards the conditions of the neighbours and the jumps to the program"""
from hypothesis import strategies as st

from pbt import gen
from pbt.checks import c31
from pbt.core import Sub, equal, require

RULE = ('Damaged programs (up to 50 words in the long cases) with conditional runs, instructions that change the flags, jumps inside and outside, gaps, and '
        'candidates discarded or undefined; the rule is run at every address, in any order, twice. Non-trivial: an address '
        'has two candidates or more.')
TINY = 1e-9


@st.composite
def jumps(draw):
    """Jumps whose lost bits make them land at different places"""
    n = draw(st.integers(2, 8))
    d = []
    for k, a in enumerate(draw(gen.addresses(n))):
        c = draw(st.sampled_from([14, 14, 14, 0, 1]))
        e = draw(st.sampled_from([0xa000000, 0xb000000, 0x12fff1e, 0x3500001, 0x1a00001, 0x591f004, 0x8bd8010]))
        mask = 0
        if e & 0xe000000 == 0xa000000:
            e |= draw(st.integers(-n, n)) & 0xffffff
            mask = sum(1 << b for b in draw(st.sets(st.integers(0, 3), max_size=3)))
        mask |= draw(st.sampled_from([0, 0, 1 << 28, 1 << 31, 1 << 24]))
        d.append([a, c << 28 | e, mask])
    return [d, [0], draw(gen.discards()), draw(st.integers(0, 2 ** 16))]


def check(ctx, case):
    import random
    from semantic_codec.metadata.probabilistic_rules.rules import ControlFlowBehavior
    d, _, discards, seed = case[:4]
    # Some cases have values of the model of their own
    values = case[4] if len(case) > 4 else {}
    model = gen.model(values)
    program = gen.program(gen.candidates(d))
    gen.mark(program, discards)
    before = gen.encodings(program)
    words = c31.valid(program)
    rule = ControlFlowBehavior(program, **({'model': model} if values else {}))
    order = list(program)
    random.Random(seed).shuffle(order)
    key = ControlFlowBehavior.short_name() + '1'
    for a in order:
        require(rule.recover(a), 'the first scores at {:#x} are not told as new', a)
        require(not rule.recover(a), 'the same scores at {:#x} are told as new', a)
    equal(gen.encodings(program), before, 'candidates after the rule')
    for a in program:
        prev, post = words.get(a - 4, []), words.get(a + 4, [])
        for i in program[a]:
            what = ' of {} at {:#x}'.format(i if not i.is_undefined else hex(i.encoding), a)
            equal(sorted(i.scores_by_rule), [key], 'rules' + what)
            got = i.scores_by_rule[key]
            if i.ignore:
                equal(got, 0, 'score of a discarded candidate' + what)
                continue
            c = c31.cond(i.encoding)

            def same(x):
                return c31.cond(x) == c

            want = model.both_conditionals_are_equals * float(c31.share(prev, same) + c31.share(post, same))
            if c == 14:
                want -= model.branch_after_cpsr * float(c31.share(prev, c31.sets_flags))
            if i.is_branch and i.jumping_address in program:
                want += model.just_any_jump_is_valid
                ctx.label('jump to the program')
            elif i.is_branch:
                ctx.label('jump elsewhere')
            require(abs(got - want) < TINY, 'score {!r}, expected {!r}' + what, got, want)
    return any(len(v) > 1 for v in program.values())


SUBS = [
    Sub('rule', check, c31.structured, quick=450, thorough=6000),
    Sub('any-program', check, c31.any_programs, quick=225, thorough=3000),
    Sub('long', check, c31.long_programs, quick=12, thorough=200),
    Sub('models', check, lambda: st.tuples(st.one_of(c31.structured(), jumps()), gen.model_values()).map(lambda x: x[0] + [x[1]]), quick=120, thorough=1500),
    Sub('jumps', check, jumps, quick=450, thorough=6000),
]

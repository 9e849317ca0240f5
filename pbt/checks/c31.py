"""C31: the evidence of the surroundings of a candidate comes from the neighbours that may be instructions"""
from fractions import Fraction

from hypothesis import strategies as st

from pbt import gen
from pbt.checks import c16
from pbt.core import Sub, equal, require

RULE = ('Damaged programs (up to 1200 words in the long cases) of up to three functions that keep registers at the start and restore them at the end or in the middle, '
        'with conditional runs, instructions that change the flags, gaps, and candidates that are discarded or not instructions. '
        'The evidence of the conditions around and of pushes and pops is computed again from the words; the one of distance is '
        'computed again without the addresses that it does not depend on. Non-trivial: an address has two candidates or more.')


def scored(cands, original, fns, discards, model=None):
    from semantic_codec.metadata.metadata_collector import MetadataCollector
    from semantic_codec.metadata.recuperator import ProbabilisticRecuperator
    collector = MetadataCollector()
    collector.collect(original)
    program = gen.program(cands)
    gen.mark(program, discards)
    ProbabilisticRecuperator(collector, program, functions=fns, **({'model': model} if model else {})).recover()
    return program, collector


def prepare(case):
    from semantic_codec.metadata.probabilistic_rules.rules import from_functions_to_list_and_addr
    d, starts, discards, _ = case[:4]
    flat, fns = from_functions_to_list_and_addr(c16.functions(d, starts))
    return d, flat, fns, gen.candidates(d), discards


def near(x, y):
    return abs(x - y) < 1e-9


def valid(program):
    """The words left at each address"""
    return {a: [i.encoding for i in v if not i.ignore] for a, v in program.items()}


def share(cands, f):
    """How many of the candidates are of a kind"""
    return Fraction(sum(1 for x in cands if f(x)), len(cands)) if cands else Fraction(0)


def sets_flags(e):
    return bool(gen.disasm(e).update_flags)


def flow_evidence(model, e, before, after):
    """Being under the condition of the neighbours, or after instructions that change the flags"""
    def same(x):
        return cond(x) == cond(e)

    equals, flags = share(before, same), share(before, sets_flags)
    either, following = share(before, lambda x: same(x) or sets_flags(x)), share(after, same)
    if cond(e) == 14:
        if flags:
            ways = [flags * (1 - Fraction(model.branch_after_cpsr))]
        elif equals:
            ways = [equals * following * Fraction(model.both_conditionals_are_equals), equals * Fraction(model.prev_conditionals_are_equals)]
        else:
            ways = [following * Fraction(model.prev_conditionals_are_equals)]
    else:
        if equals and flags:
            near, alone = model.branch_after_cpsr_and_near_cond_are_equals, model.branch_after_cpsr_and_prev_cond_are_equals
        elif equals:
            near, alone = model.both_conditionals_are_equals, model.prev_conditionals_are_equals
        else:
            near, alone = model.branch_after_cpsr_and_after_cond_are_equals, model.branch_after_cpsr
        ways = [either * following * Fraction(near), either * Fraction(alone)]
    return max(ways) or Fraction(model.low_probability)


def cond(e):
    # Some instructions have no condition, whatever those bits are
    return gen.disasm(e).cc - 1


def is_push(e):
    return gen.text(e, 0).startswith('push')


def is_pop(e):
    return gen.text(e, 0).startswith('pop')


def listed(e):
    """Registers of a push or pop"""
    return {e >> 12 & 15} if e >> 26 & 3 == 1 else {r for r in range(16) if e >> r & 1}


def restores(push, pop):
    return listed(pop) <= listed(push) | {13, 15} and listed(push) <= listed(pop) | {13, 14}


def stack_evidence(model, e, a, words, fns, current):
    """The values that the evidence of a push or pop may have"""
    base = 1 / len(words[a])
    if is_pop(e):
        others = [x for x in words[current] if is_push(x)]
        equal_lists, far = any(restores(x, e) for x in others), False
        sure_far = False
    elif a not in fns:
        return [base]
    else:
        end = fns[a][1]
        others = [x for x in words[end] if is_pop(x)]
        equal_lists = any(restores(e, x) for x in others)
        body = [x for x in words if a < x <= end and (x - a) % 4 == 0]
        pops = [x for x in body if any(is_pop(w) for w in words[x])]
        jumps = [x for x in body if any(gen.inst(w, x).is_branch for w in words[x])]
        far = bool(pops and jumps)
        sure_far = any(x < y for x in pops for y in jumps)
    if equal_lists:
        base = model.push_given_pop_at_fn_end_equal_registers
    near = model.push_given_pop_at_fn_end if others else 0
    values = [max(base, near, model.push_given_pop_at_fn_middle if f else 0) for f in ({True} if sure_far else {far, False})]
    return values


def check_surroundings(ctx, case):
    d, flat, fns, cands, discards = prepare(case)
    # Some cases have values of the model of their own
    values = case[4] if len(case) > 4 else {}
    model = gen.model(values)
    program, m = scored(cands, flat, fns, discards, model if values else None)
    words = valid(program)
    lowest = current = min(program)
    for a in sorted(program):
        current = a if a in fns else current
        for i in program[a]:
            what = ' of {} at {:#x}'.format(i if not i.is_undefined else hex(i.encoding), a)
            s = i.scores_by_rule
            if i.ignore:
                equal(s, {}, 'evidence of a discarded candidate' + what)
                continue
            if i.is_push_pop:
                want = stack_evidence(model, i.encoding, a, words, fns, current)
                require(any(near(s['pupo'], w) for w in want), 'pupo {!r}, expected {!r}' + what, s['pupo'], want)
                ctx.label('push or pop: {}'.format('rewarded' if s['pupo'] > 1 / len(words[a]) else 'alone'))
            if a != lowest:
                want = float(flow_evidence(model, i.encoding, words.get(a - 4, []), words.get(a + 4, [])))
                require(near(s['pcfg'], want), 'pcfg {!r}, expected {!r}' + what, s['pcfg'], want)
                ctx.label('under a condition' if i.conditional_field != 14 else 'always')
    return any(len(es) > 1 for _, es in cands)


def check_distance(ctx, case):
    """The evidence of the distance depends on the addresses that the metadata gives for the registers read, and nothing else"""
    from semantic_codec.metadata.recuperator import ProbabilisticRecuperator
    d, flat, fns, cands, discards = prepare(case)
    program, m = scored(cands, flat, fns, discards)
    addrs = sorted(program)
    left = valid(program)
    at = addrs[case[3] % len(addrs)]
    ranges = {}
    for i in program[at]:
        if 'prd' not in i.scores_by_rule:
            continue
        near_by = set()
        for r in i.storages_read():
            lo, hi = (m.storage_min_dist[r], m.storage_max_dist[r]) if r in m.storage_max_dist else (0, 0)
            near_by |= {at - 4 * (k + 1) for k in range(lo, hi + 1)}
        ranges[i.encoding] = near_by & set(addrs)
    for e, near_by in ranges.items():
        # The program without the rest, after an instruction far away
        start = addrs[0] - 4096
        small = gen.program([[start, [0xe1a00000]]] + [[x, es] for x, es in left.items() if x in near_by] + [[at, [e]]])
        ProbabilisticRecuperator(m, small, functions={start: (start, at)}).recover()
        got = small[at][0].scores_by_rule['prd']
        want = [i.scores_by_rule['prd'] for i in program[at] if i.encoding == e][0]
        require(near(got, want), 'prd of {!r} at {:#x} is {!r} with just the addresses of its registers, and {!r} with all', e, at, got, want)
        require(want > 0, 'prd of {!r} at {:#x} is impossible', e, at)
    return any(len(v) < len(addrs) - 1 for v in ranges.values())


FILLER = 0xe3a01007


@st.composite
def structured(draw, far=False):
    """Functions that keep registers at the start and restore them at the end or in the middle, with conditional runs"""
    words, starts = [], []
    lists = draw(st.lists(st.sets(st.integers(3, 7), min_size=2, max_size=3).map(lambda s: sum(1 << r for r in s)), min_size=1, max_size=2))
    for _ in range(draw(st.integers(1, 1 if far else 3))):
        starts.append(len(words))
        regs = draw(st.sampled_from(lists))
        if far or draw(st.integers(0, 4)):
            words.append(0xe92d0000 | regs | draw(st.sampled_from([0, 1 << 14])))
        for _ in range(draw(st.integers(2 if far else 0, 4))):
            kind = draw(st.sampled_from(['pop', 'jump', 'pop', 'jump', 'plain'] if far else ['plain', 'plain', 'flags', 'pop', 'jump', 'push']))
            c = draw(st.sampled_from([14, 14, 0, 0, 1]))
            words.append(c << 28 | {'plain': 0x1a00001, 'flags': 0x3500001, 'pop': 0x8bd0000 | draw(st.sampled_from(lists)),
                                    'jump': 0xafffffe, 'push': 0x92d0000 | draw(st.sampled_from(lists))}[kind])
            if far:
                words += [FILLER] * draw(st.sampled_from([n for n in gen.RUNS if n <= 300]))
        if draw(st.integers(0, 3)) > 2 * far:
            other = draw(st.sampled_from([0, 0, 1 << 3, 1 << 7]))
            words.append(0xe8bd0000 | (regs ^ other or regs) | draw(st.sampled_from([0, 1 << 15, 1 << 15, 1 << 14])))
        if len(words) == starts[-1] or draw(st.integers(0, 3)) == 0:
            words.append(0xe12fff1e)
    d = []
    bits = st.sets(st.sampled_from([0, 3, 6, 7, 14, 15, 20, 28, 29, 31, 31]), max_size=3)
    for a, e in zip(draw(gen.addresses(len(words), gaps=draw(st.booleans()))), words):
        d.append([a, e, sum(1 << b for b in draw(bits)) if e != FILLER and gen.decodable(e) else 0])
    if draw(st.integers(0, 15)) == 0:
        # Many candidates
        k = draw(st.sampled_from([k for k, (_, e, _) in enumerate(d) if gen.decodable(e)]))
        d[k][2] = draw(st.sampled_from([0xff, 0x1f8, 0x80000ff, 0x10000ff]))
    return [d, starts, draw(gen.discards()), draw(st.integers(0, 2 ** 16))]


@st.composite
def any_programs(draw):
    d, starts, _, seed = draw(c16.cases())
    return [d, starts, draw(gen.discards()), seed]


@st.composite
def long_programs(draw):
    return draw(gen.long_functions(1, 50)) + [draw(gen.discards()), draw(st.integers(0, 2 ** 16))]


SUBS = [
    Sub('surroundings', check_surroundings, structured, quick=350, thorough=6000),
    Sub('any-program', check_surroundings, any_programs, quick=150, thorough=3000),
    Sub('far', check_surroundings, lambda: structured(far=True), quick=20, thorough=200),
    Sub('long', check_surroundings, long_programs, quick=12, thorough=200),
    Sub('models', check_surroundings, lambda: st.tuples(structured(), gen.model_values()).map(lambda x: x[0] + [x[1]]), quick=100, thorough=1500),
    Sub('distance', check_distance, any_programs, quick=200, thorough=4000),
]

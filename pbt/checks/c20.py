"""C20: the solution given by the constrained builders identifies the program that was sent"""
import math
import random

from hypothesis import strategies as st

from pbt import gen
from pbt.core import Sub, equal, require

RULE = ('Damaged programs of 1 to 24 words (200 in the long cases) with up to 5 lost bits each, or any lists of candidates having the original, '
        'with candidates discarded and addresses that have none; the bits of the solution are decoded with the damaged '
        'program only. Non-trivial: two addresses or more have several candidates (bits), or candidates are pruned '
        '(enumerator).')


@st.composite
def cases(draw, large=False):
    n = draw(st.integers(8, 24)) if large else draw(st.integers(1, 10))
    pool = draw(st.lists(gen.words(4), min_size=1, max_size=4))
    result = []
    for a in draw(gen.addresses(n)):
        e = draw(st.sampled_from(pool))
        if large or draw(st.booleans()):
            es = [e ^ m for m in gen.submasks(sum(1 << b for b in draw(st.sets(st.integers(0, 31), min_size=int(large), max_size=5))))]
        else:
            es = [e] + draw(st.lists(st.one_of(gen.any_word(), st.sampled_from(pool)), max_size=9))
        twin = None
        if draw(st.integers(0, 7)) == 0:
            # The bits 8 to 11 of these are not read, so other candidates read as the original, discarded or not
            e = draw(st.sampled_from([0xe11000b0, 0xe10000b0, 0xe19000f0])) | draw(st.integers(0, 3)) << 12 | draw(st.integers(0, 3))
            twin = e ^ draw(st.integers(1, 15)) << 8
            es = es[1:] + [e, twin]
        es = draw(st.permutations(list(dict.fromkeys(es))))
        if draw(st.integers(0, 11)) == 0:
            e = draw(gen.undefined_words())
            es = [e]
        elif draw(st.integers(0, 15)) == 0:
            es = []
        ignored = [x for x in es if x != e and draw(st.integers(0, 1 if x == twin else 9)) == 0]
        result.append([a, e, es, ignored])
    return result


@st.composite
def long_cases(draw):
    result = []
    d = draw(gen.long_damaged(1, 200))
    r = random.Random(draw(st.integers(0, 2 ** 32)))
    for a, e, mask in d:
        es = [e ^ m for m in gen.submasks(mask)]
        r.shuffle(es)
        result.append([a, e, es, [x for x in es if x != e and r.random() < 0.1]])
    return result


def build(case):
    program = {}
    for a, e, es, ignored in case:
        program[a] = [gen.inst(x, a) for x in es]
        for i in program[a]:
            if i.encoding in ignored:
                i.ignore = True
    # The collector of the metadata only accepts programs
    return program, [gen.inst(e, a) for a, e, _, _ in case]


def texts(es, a):
    return [gen.text(e, a) for e in es]


def check_bits(ctx, case):
    from semantic_codec.solution.solution_builders import ForwardConstraintSolutionBuilder
    program, original = build(case)
    b = ForwardConstraintSolutionBuilder(program, original)
    b.build()
    equal(gen.encodings(program), {a: es for a, _, es, _ in case}, 'candidates after building the bits')
    # The addresses from less to more candidates; in each, just the bits needed by the amount of candidates
    total, several = 0, 0
    queue = b.solution
    for a, e, es, _ in sorted(case, key=lambda c: len(c[2])):
        if len(es) < 2 or not gen.decodable(e):
            continue
        several += 1
        size = math.ceil(math.log2(len(es)))
        queue.word_size = size
        require(not queue.empty(), 'the solution is too short')
        index = queue.dequeue(0, 0)
        require(index < len(es), 'index {} of {} candidates at {:#x}', index, len(es), a)
        equal(gen.text(es[index], a), gen.text(e, a), 'decoded candidate {} at {:#x}'.format(index, a))
        total += size
    require(queue.empty(), 'the solution has bits left')
    equal(b.solution_size, total, 'size of the solution')
    ctx.label('more than a word of bits' if total > 32 else 'up to a word of bits')
    return several > 1


_uses = {}


def facts(e, a):
    if (e, a) not in _uses:
        i = gen.inst(e, a)
        fields = [('opcode', i.opcode_field), ('condition', i.conditional_field)]
        _uses[e, a] = (fields + [('storage', s) for s in i.storages_used()], fields + [('storage', s) for s in i.registers_used()])
    return _uses[e, a]


def uses(e, a):
    """What an instruction takes from the metadata"""
    return facts(e, a)[0]


def needs(e, a):
    """What the metadata has to have for an instruction"""
    return facts(e, a)[1]


def check_enumerator(ctx, case):
    from semantic_codec.solution.solution_builders import ForwardConstraintSolutionEnumerator
    program, original = build(case)
    b = ForwardConstraintSolutionEnumerator(program, original)
    b.build()
    want, pruned = 1, 0
    equal(sorted(program), sorted(c[0] for c in case), 'addresses')
    for a, e, es, _ in case:
        after = [i.encoding for i in program[a]]
        rest = iter(es)
        require(all(x in rest for x in after), 'candidates at {:#x} are not a part of the given ones: {}', a, after)
        if not es or not gen.decodable(e):
            continue
        require(e in after, 'the original {:#x} was pruned at {:#x}', e, a)
        pruned += len(es) - len(after)
        want *= texts(after, a).index(gen.text(e, a)) + 1
    equal(b.solution, want, 'number of the solution')
    require(abs(b.solution_size - math.log2(want)) < 1e-6, 'size {!r} of solution {}', b.solution_size, want)
    # The address with fewer candidates left is always solved next, and the others lose just the candidates that the metadata
    # not used yet cannot give, but the last one of each list is not tested. Any order of the ties is accepted
    left = {}
    todo = {a: (e, es, [i.encoding for i in program[a]]) for a, e, es, _ in case}
    ignored = {a: set(x) for a, _, _, x in case}
    solved = {a: bool(es) and gen.decodable(e) for a, (e, es, _) in todo.items()}
    for a in todo:
        if gen.decodable(todo[a][0]):
            for f in uses(todo[a][0], a):
                left[f] = left.get(f, 0) + 1
    def survivors(a, used):
        now = dict(left)
        for b in used:
            for f in uses(todo[b][0], b):
                now[f] -= 1
        es = todo[a][1]
        if not used:
            return es
        return [x for x in es[:-1] if gen.decodable(x) and x not in ignored[a]
                and all(now.get(f, 0) > 0 for f in needs(x, a))] + es[-1:]

    seen = set()
    stack = [frozenset()]
    done = False
    while stack and not done:
        used = stack.pop()
        current = {a: survivors(a, used) for a in todo if solved[a] and a not in used}
        if not current:
            done = True
            break
        # Addresses not solved never change what is left
        fewest = min(map(len, current.values()))
        for a, es in sorted(current.items()):
            after = used | {a}
            if len(es) == fewest and es == todo[a][2] and after not in seen:
                seen.add(after)
                stack.append(after)
    require(done, 'the candidates left are not the ones that comply with the metadata not used yet: {}',
            {hex(a): list(map(hex, x[2])) for a, x in todo.items()})
    ctx.label('prunes' if pruned else 'prunes nothing')
    ctx.note('candidates pruned', pruned)
    return pruned > 0


@st.composite
def numbers(draw):
    """Words whose candidates all have the same instruction, condition and registers: none of them is discarded"""
    n = draw(st.integers(1, 160))
    r = random.Random(draw(st.integers(0, 2 ** 32)))
    result = []
    for k in range(n):
        e = 0xe3a00001 | r.randint(0, 3) << 12 | r.randint(0, 255)
        es = [e ^ m for m in r.sample(range(1, 256), r.randint(0, 6))]
        es.insert(r.randint(0, len(es)), e)
        result.append([0x1000 + 4 * k, e, es, []])
    return result


def check_number(ctx, case):
    """The number of the solution, for any amount of words"""
    from semantic_codec.solution.solution_builders import ForwardConstraintSolutionEnumerator
    program, original = build(case)
    b = ForwardConstraintSolutionEnumerator(program, original)
    b.build()
    want = 1
    for a, e, es, _ in case:
        after = [i.encoding for i in program[a]]
        require(e in after and set(after) <= set(es), 'candidates left at {:#x}: {!r} of {!r} for {:#x}', a, after, es, e)
        want *= texts(after, a).index(gen.text(e, a)) + 1
    equal(b.solution, want, 'number of the solution')
    require(abs(b.solution_size - math.log2(want)) < 1e-6, 'size {!r} of solution {}', b.solution_size, want)
    ctx.label('more than 53 bits' if want >= 2 ** 53 else 'up to 53 bits')
    return want > 1


SUBS = [
    Sub('bits', check_bits, cases, quick=225, thorough=5000),
    Sub('many-bits', check_bits, lambda: cases(large=True), quick=120, thorough=1500),
    Sub('long', check_bits, long_cases, quick=12, thorough=200),
    Sub('number', check_number, numbers, quick=30, thorough=500),
    Sub('enumerator', check_enumerator, cases, quick=300, thorough=4000),
]

"""C29: the report of a recovery accounts for every damaged word once"""
import random
import re

from hypothesis import strategies as st

from pbt import gen
from pbt.core import Sub, equal, require

RULE = ('Programs of 1 to 10 words (150 in the long cases) with 1 to 6 scored candidates each, having the original (or not), with ties and equal '
        'texts. The figures of the report are computed again from the candidates. Non-trivial: two of the classes '
        '(losing, tied, recovered) are present.')


SCORE = st.one_of(st.integers(0, 4).map(lambda k: k / 4), st.sampled_from([0.5 + 2 ** -30, 0.25 - 2 ** -40, 1e-12, 2e-12]))


@st.composite
def cases(draw):
    n = draw(st.integers(1, 10))
    pool = draw(st.lists(gen.words(4), min_size=1, max_size=4))
    result = []
    for a in draw(gen.addresses(n)):
        e = draw(st.sampled_from(pool))
        if draw(st.integers(0, 4)) == 0:
            es = []
        elif draw(st.booleans()):
            es = [e ^ m for m in gen.submasks(sum(1 << b for b in draw(st.sets(st.integers(0, 31), max_size=2))))][1:]
        else:
            es = draw(st.lists(gen.any_word(), max_size=5))
        es = draw(st.permutations(list(dict.fromkeys(es + [e]))))
        if draw(st.integers(0, 9)) == 0 and len(es) > 1:
            es = [x for x in es if x != e]
        rules = draw(st.sampled_from([['pc'], ['pc'], ['pc', 'prd'], ['pc', 'pcf', 'preg']]))
        scores = [{r: draw(SCORE) for r in rules if r == 'pc' or draw(st.integers(0, 3))} for _ in es]
        result.append([a, e, es, scores, [draw(st.integers(0, 7)) == 0 for _ in es]])
    return result


@st.composite
def long_cases(draw):
    d = draw(gen.long_damaged(1, 150))
    r = random.Random(draw(st.integers(0, 2 ** 32)))
    result = []
    for a, e, mask in d:
        es = [e ^ m for m in gen.submasks(mask)]
        r.shuffle(es)
        scores = [r.randint(0, 4) / 4 for _ in es]
        if r.randint(0, 1):
            # The original is the first of the best ones
            es.insert(0, es.pop(es.index(e)))
            scores[0] = 1
        result.append([a, e, es, [{'pc': s} for s in scores], [r.random() < 0.05 for _ in es]])
    return result


def total(scores):
    result = 0
    for x in scores.values():
        result += x
    return result


def check(ctx, case):
    import sys
    import recover_program
    original = [gen.inst(e, a) for a, e, *_ in case]
    program = []
    for a, e, es, rules, ignored in case:
        v = [gen.inst(x, a) for x in es]
        for i, s, ignore in zip(v, rules, ignored):
            i.scores_by_rule.update(s)
            if ignore:
                i.ignore = True
        program.append(v)
    out = sys.stdout
    recover_program.print_report('report.txt', original, program)
    require(sys.stdout is out, 'the output is not restored')
    text = open('report.txt').read()
    errors, losing, tied, recovered, depths = 0, 0, 0, 0, {}
    bad, ties = {}, []
    for (a, e, es, rules, _), v in zip(case, program):
        scores = [total(r) for r in rules]
        equal(sorted(i.encoding for i in v), sorted(es), 'candidates at {:#x}'.format(a))
        if len(es) < 2:
            continue
        want = [x for x, _ in sorted(zip(es, scores), key=lambda t: -t[1])]
        equal([i.score() for i in v], sorted(scores, reverse=True), 'scores, from best to worst')
        errors += 1
        best = sorted(scores, reverse=True)
        first, second = v[0].encoding, v[1].encoding
        same = lambda x, y: x == y or (gen.text(x, a) is not None and gen.text(x, a) == gen.text(y, a))
        if not same(first, e):
            losing += 1
            if e in es:
                winner, sent = [rules[es.index(x)] for x in (first, e)]
                for r in winner:
                    if r in sent and winner[r] > sent[r]:
                        bad[r] = bad.get(r, 0) + 1
        elif best[0] == best[1] and not same(first, second):
            tied += 1
            ties.append(best.count(best[0]))
        else:
            recovered += 1
        if e in es:
            d = [i.encoding for i in v].index(e)
            depths[d] = depths.get(d, 0) + 1
    m = re.search(r'ERRORS: (\d+) -- LOSING: (\d+) -- TIDE: (\d+) --RECOVERED: (\d+) -- RATIO: (\S+)', text)
    require(m, 'the report has no figures')
    equal([int(x) for x in m.groups()[:4]], [errors, losing, tied, recovered], 'errors, losing, tied and recovered words')
    require(abs(float(m.group(5)) - (recovered / errors if errors else 1)) < 1e-9, 'ratio {}', m.group(5))
    m = re.search(r'DEPTHS: .*?(\{.*\})', text)
    require(m, 'the report has no depths')
    equal(eval(m.group(1)), depths, 'words by the depth of their original')
    equal(text.count('Original Instruction: '), len(case), 'instructions in the report')
    # Every candidate, from best to worst, with its score and the originals marked
    listed = re.findall(r'^(X?)(0x[0-9a-f]+) (\+\+|--) \[(\d+)\] (.*?) : (\S+): -->(.*)$', text, re.M)
    want = []
    for (a, e, es, rules, ignored), v in zip(case, program):
        if len(es) > 1:
            score, out = dict(zip(es, rules)), dict(zip(es, ignored))
            want.append([('X' if out[i.encoding] or gen.text(i.encoding, a) is None else '', hex(a), '++' if i.encoding == e else '--',
                          str(i.encoding), '{:.6f}'.format(total(score[i.encoding])), sorted(score[i.encoding].items())) for i in v])
    equal([(x[0], x[1], x[2], x[3], x[5]) for x in listed], [x[:5] for w in want for x in w], 'candidates in the report')
    told = [sorted(re.findall(r' (\w+): (\d\.\d+) --', x[6])) for x in listed]
    equal(told, [[(k, '{:.6f}'.format(s)) for k, s in x[5]] for w in want for x in w], 'scores by rule in the report')
    # Words tied, and rules that are wrong
    equal([int(x) for x in re.findall(r' \* TIE : (\d+) instructions', text)], ties, 'candidates of each tie')
    equal([text.count(' * FAIL : '), text.count(' * OK!')], [losing, recovered], 'words told as losing and as recovered')
    m = re.search(r'BAD RULES:\n((?:\w+ : \d+\n)*)', text)
    require(m, 'the report has no wrong rules')
    equal({k: int(x) for k, x in re.findall(r'(\w+) : (\d+)', m.group(1))}, bad, 'rules giving more to the winner than to the original')
    require(('No rule assigned' in text) == (not bad), 'whether there are wrong rules')
    m = re.search(r'AVERAGE TIE COUNT: (\S+)', text)
    require(m or len(ties) < 2, 'no average of the ties {!r}', ties)
    if m:
        require(ties and abs(float(m.group(1)) - sum(ties) / len(ties)) < 1e-9, 'average of the ties {!r} told as {}', ties, m.group(1))
    ctx.label('no errors' if not errors else 'errors')
    return sum(x > 0 for x in (losing, tied, recovered)) > 1


SUBS = [
    Sub('figures', check, cases, quick=1400, thorough=12000),
    Sub('figures-long', check, long_cases, quick=12, thorough=200),
]

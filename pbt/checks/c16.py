"""C16: recovering a damaged program never discards the instruction that was sent"""
import os
import random
import re

from hypothesis import strategies as st

from pbt import gen
from pbt.core import Sub, equal, require

RULE = ('Programs of one to four functions with up to 14 words in total, with gaps, damaged by any sets of up to 4 lost '
        'bits per word, by lost packets or by the random simulator (and larger ones, up to 36 words where the same bits are lost everywhere, or where each pass solves one word), go through the whole recovery, and so do the programs of the repository (up to 770 words); the solution files '
        'it writes and the candidates it keeps are judged. Non-trivial: the recovery discards some candidate.')
ASSUMPTIONS = ['The words that are damaged are instructions: for data the recovery discards the original by design '
               '(undefined words are only generated undamaged).']


@st.composite
def cases(draw):
    d = draw(gen.damaged(lo=1, hi=14, max_bits=draw(st.sampled_from([2, 4])), undefined_originals=True))
    n = len(d)
    starts = sorted(draw(st.sets(st.integers(1, n), max_size=3)) | {0})
    starts = [s for s in starts if s < n]
    how = draw(st.sampled_from(['masks', 'masks', 'packets', 'random', 'json']))
    if how in ('packets', 'random'):
        d = [[a, e if gen.decodable(e) else 0xe1a00000, 0] for a, e, _ in d]
    return [d, starts, how, draw(st.integers(0, 2 ** 16))]


@st.composite
def hard_cases(draw):
    """
    Larger programs where the same bits are lost in many places, and the words differ from each other in those bits: every
    word is confused with the rest
    """
    n = draw(st.one_of(st.integers(6, 14), st.integers(6, 32)))
    fragile = sorted(draw(st.sets(st.one_of(st.integers(28, 31), st.integers(21, 24), st.integers(0, 31)), min_size=2, max_size=5 if n > 14 else 6)))
    masks = gen.submasks(sum(1 << b for b in fragile))
    pool = [e ^ m for e in draw(st.lists(gen.data_processing(), min_size=1, max_size=3)) for m in masks]
    pool = [e for e in pool if gen.decodable(e)]
    usual = draw(st.sampled_from(pool))
    # Words as likely as the others, or mostly the same one with a few exceptions
    odds = draw(st.sampled_from([1, 2, 2, n, 2 * n]))
    # Everything damaged, or a few places more than the exceptions
    quiet = draw(st.sampled_from([0, 0, 50, 80]))
    d = []
    for a in draw(gen.addresses(n)):
        e = usual if draw(st.integers(1, odds)) > 1 else draw(st.sampled_from(pool))
        damaged = e != usual or draw(st.integers(0, 99)) >= quiet
        d.append([a, e, draw(st.sampled_from([masks[-1], masks[-1], draw(st.sampled_from(masks))])) if damaged else 0])
    starts = sorted(draw(st.sets(st.integers(1, n - 1), max_size=3)) | {0})
    return [d, starts, 'masks', 0]


@st.composite
def chain_cases(draw):
    """
    Each pass may solve a word only: the conditions (or the operations) of the words differ, each is confused with the next
    one, and there is no other evidence
    """
    n = draw(st.integers(2, 13))
    at, values = draw(st.sampled_from([(28, [0, 1, 3, 2, 6, 7, 5, 4, 12, 13, 9, 8, 10, 11]),
                                       (21, [0, 1, 3, 2, 6, 7, 5, 4, 12, 13, 15, 14, 10, 11, 9, 8])]))
    first = draw(st.integers(0, len(values) - n - 1))
    path = values[first:first + n + 1]
    if draw(st.booleans()):
        path.reverse()
    # Valid for all the operations
    word = 0xe0100000 | draw(st.integers(0, 12))
    if at == 28:
        d = [[word & 0x0fffffff | c << 28 | 4 << 21, (c ^ path[k + 1]) << 28] for k, c in enumerate(path[:-1])]
        # The operation alone tells nothing
        d += [[word | 4 << 21, 8 << 21], [word | 12 << 21, 8 << 21]]
    else:
        d = [[word | c << 21, (c ^ path[k + 1]) << 21] for k, c in enumerate(path[:-1])]
        left = [v for v in values if v not in path] or [path[0]]
        d += [[word & 0x0fffffff | left[0] << 21, 14 << 28], [word | left[0] << 21, 14 << 28]]
    d = [x for x in draw(st.permutations(d)) if gen.decodable(x[0])]
    d = [[a, e, m] for a, (e, m) in zip(draw(gen.addresses(len(d))), d)]
    return [d, [0], 'masks', 0]


@st.composite
def real_cases(draw):
    """Functions of the programs of the repository, or whole programs, losing a packet"""
    every = gen.real_programs()
    fns = every[draw(st.integers(0, len(every) - 1))]
    if draw(st.booleans()):
        first = draw(st.integers(0, len(fns) - 1))
        fns = fns[first:first + draw(st.integers(1, 20))]
    d, starts = [], []
    for f in fns:
        starts.append(len(d))
        d += [[a, e, 0] for a, e in f]
    return [d, starts, draw(st.sampled_from(['packets', 'packets', 'random'])), draw(st.integers(0, 2 ** 16))]


class Masks(object):
    """Damages a program as told"""
    def __init__(self, cands, shuffle):
        self.cands, self.shuffle = cands, shuffle

    def corrupt(self, program):
        for a, es in self.cands:
            program[a] = [gen.inst(e, a) for e in es]
        return program


def functions(d, starts):
    from semantic_codec.architecture.functions import ElfFunction
    result = []
    for k, s in enumerate(starts):
        f = ElfFunction('f{}'.format(k))
        end = starts[k + 1] if k + 1 < len(starts) else len(d)
        f.instructions = [gen.inst(e, a) for a, e, _ in d[s:end]]
        result.append(f)
    return result


def corruptor(case):
    from semantic_codec.corruption import corruptors
    d, starts, how, seed = case
    if how == 'packets':
        packets = 12 + seed % 20
        return corruptors.PacketCorruptor(packets, len(d), packets_lost=[seed // 32 % packets],
                                          bits_per_interleave=[1, 2][seed // 1024 % 2])
    if how == 'random':
        random.seed(seed)
        return corruptors.RandomCorruptor(seed % 101, 3, False)
    if how == 'json':
        import json
        with open('damaged.json', 'w') as f:
            json.dump({str(a): es for a, es in gen.candidates(d)}, f)
        return corruptors.JSONCorruptor('damaged.json')
    return Masks(gen.candidates(d), seed)


class Spy(object):
    """Keeps the program that the recovery works on"""
    def __init__(self, inner):
        self.inner = inner

    def corrupt(self, program):
        self.program = self.inner.corrupt(program)
        self.before = gen.encodings(self.program)
        return self.program


def judge_reports(before, after):
    """A report of what was damaged, and of each pass up to the last one"""
    passes = 0
    while os.path.exists('instructions{}.txt'.format(passes + 1)):
        passes += 1
    names = ['corrupted_program.txt'] + ['instructions{}.txt'.format(k + 1) for k in range(passes)]
    equal(sorted(x for x in os.listdir('.') if x.endswith('.txt')), sorted(names), 'reports')
    require(passes > 2, 'only {} reports of the passes', passes)
    last = None
    read = []
    for name in names:
        got = {}
        for a, e in re.findall(r'^X?(0x[0-9a-f]+) (?:\+\+|--) \[(\d+)\]', open(name).read(), re.M):
            got.setdefault(int(a, 16), []).append(int(e))
        for a, es in got.items():
            require(last is None or set(es) <= set(last.get(a, ())), '{} has candidates at {:#x} that were discarded', name, a)
        if last is None or name == names[-1]:
            equal({a: sorted(v) for a, v in got.items()},
                  {a: sorted(v) for a, v in (before if last is None else after).items() if len(v) > 1}, 'candidates in ' + name)
        last = got
        read.append({a: sorted(v) for a, v in got.items()})
        os.remove(name)
    # The report after the last pass comes before the constraints, which have their own
    equal(read[-2], read[-3], 'candidates after the last pass, that had to discard nothing')


def check(ctx, case):
    import recover_program
    from semantic_codec.metadata.recuperator import ProbabilisticRecuperator
    from semantic_codec.solution.solution_io import SolutionReader
    d, starts, how, seed = case
    if how == 'packets':
        packets = 12 + seed % 20
        if not gen.lost_chunks(gen.make_order(packets), [seed // 32 % packets], [1, 2][seed // 1024 % 2], len(d)):
            return False
    for x in os.listdir('.'):
        if x.endswith('.txt'):
            os.remove(x)
    spy = Spy(corruptor(case))
    sent = {a: e for a, e, _ in d}
    recover_program.run_recovery(functions(d, starts), spy, ProbabilisticRecuperator)
    equal(sorted(spy.before), sorted(sent), 'addresses of the damaged program')
    dropped = 0
    for name in ('initial_solution.sol', 'final_solution.sol'):
        original, program = SolutionReader().read(name)
        equal({a: [i.encoding for i in v] for a, v in original.items()}, {a: [e] for a, e in sent.items()},
              'program in ' + name)
        for a, v in program.items():
            es = [i.encoding for i in v]
            require(set(es) <= set(spy.before[a]), '{} has candidates at {:#x} that the damage does not give', name, a)
            equal(len(set(es)), len(es), 'different candidates of {} at {:#x}'.format(name, a))
        os.remove(name)
    after = gen.encodings(spy.program)
    equal(sorted(after), sorted(sent), 'addresses after the recovery')
    for a, e in sent.items():
        require(e in after[a], 'the instruction sent {:#010x} ({}) at {:#x} was discarded', e, gen.text(e, a), a)
        left = list(spy.before[a])
        for x in after[a]:
            require(x in left, 'candidate {:#x} at {:#x} does not come from the damage', x, a)
            left.remove(x)
        if len(spy.before[a]) == 1:
            equal(after[a], spy.before[a], 'word not damaged at {:#x}'.format(a))
        dropped += len(left)
    judge_reports(spy.before, after)
    ctx.label(how)
    ctx.label('discards' if dropped else 'discards nothing')
    ctx.note('candidates discarded', dropped)
    ctx.note('candidates', sum(len(v) for v in spy.before.values()))
    return dropped > 0


def check_sound(ctx, case):
    """One pass of the scores: what was sent never scores 0, nor loses against a sure candidate"""
    import recover_program
    from semantic_codec.metadata.metadata_collector import MetadataCollector
    from semantic_codec.metadata.recuperator import ProbabilisticRecuperator
    from semantic_codec.metadata.probabilistic_rules.rules import from_functions_to_list_and_addr
    d, starts, _, _ = case
    flat, fns = from_functions_to_list_and_addr(functions(d, starts))
    collector = MetadataCollector()
    collector.collect(flat)
    program = gen.program(gen.candidates(d))
    ProbabilisticRecuperator(collector, program, functions=fns).recover()
    for a, e, mask in d:
        if not mask:
            continue
        scores = {i.encoding: i.score() for i in program[a]}
        require(scores[e] > 0, 'the instruction sent {:#x} scores 0 at {:#x}', e, a)
        if scores[e] < 1:
            sure = [x for x, s in scores.items() if s == 1]
            require(not sure, 'at {:#x} candidates are taken as sure and the instruction sent {:#x} is not', a, e)
    return any(m for _, _, m in d)


def check_script(ctx, case):
    """The script of the repository, on the program that it has"""
    import runpy
    from pbt import core
    from semantic_codec.solution.solution_io import SolutionReader
    sent = {a: e for f in gen.real_program('basicmath_small.disam') for a, e in f}
    runpy.run_path(os.path.join(core.REPO, 'recover_program.py'), run_name='__main__')
    reports = sorted(x for x in os.listdir('.') if x.endswith('.txt'))
    before = {}
    for a, e in re.findall(r'^X?(0x[0-9a-f]+) (?:\+\+|--) \[(\d+)\]', open('corrupted_program.txt').read(), re.M):
        before.setdefault(int(a, 16), []).append(int(e))
    require(before, 'the script damages nothing')
    for a, es in before.items():
        bits = 0
        for e in es:
            bits |= e ^ sent[a]
        equal(sorted(es), sorted(sent[a] ^ m for m in gen.submasks(bits)), 'candidates at {:#x}'.format(a))
    for name in ('initial_solution.sol', 'final_solution.sol'):
        original, program = SolutionReader().read(name)
        equal({a: [i.encoding for i in v] for a, v in original.items()}, {a: [e] for a, e in sent.items()}, 'program in ' + name)
        for a, v in program.items():
            equal(v[-1].encoding, sent[a], 'last candidate of {} at {:#x}'.format(name, a))
            require({i.encoding for i in v} <= set(before.get(a, [sent[a]])), '{} has candidates at {:#x} that the damage does not give', name, a)
        os.remove(name)
    for name in reports:
        os.remove(name)
    return True


SUBS = [
    Sub('recovery', check, cases, quick=220, thorough=3500),
    Sub('programs', check, real_cases, quick=6, thorough=400),
    Sub('scores', check_sound, cases, quick=250, thorough=4000),
    Sub('hard-recovery', check, hard_cases, quick=50, thorough=1500),
    Sub('chain-recovery', check, chain_cases, quick=25, thorough=600),
    Sub('hard-scores', check_sound, hard_cases, quick=150, thorough=3000),
    Sub('script', check_script, sweep=lambda tier: [None]),
]

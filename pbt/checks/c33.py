"""C33: the results depend on what is given and nothing else: neither on what was done before nor on the process"""
import contextlib
import io
import json
import os
import random
import re
import subprocess
import sys
import tempfile

from hypothesis import strategies as st

from pbt import gen, stubs
from pbt.checks import c12, c13, c16, c23, c31
from pbt.core import HarnessError, Sub, Violation, equal, require

RULE = ('Whole recoveries (with the files and reports that they write), control flow graphs, dominators and SSA forms, codes, '
        'interleaving, random damage, constraint problems and readers, over generated programs. Each is done in a new process '
        'alone, and in another one after doing others (or the same ones) with other programs; and in processes where the order of '
        'sets and the places in memory are different. Non-trivial: something is done before with another program.')


def words_of(d):
    return [e for _, e, _ in d]


def do_recovery(case):
    import recover_program
    from semantic_codec.metadata.recuperator import ProbabilisticRecuperator
    fns = c16.functions(case[0], case[1])
    spy = c16.Spy(c16.corruptor([case[0], case[1], 'masks', case[3]]))
    recover_program.run_recovery(fns, spy, ProbabilisticRecuperator)
    result = {'candidates': sorted(gen.encodings(spy.program).items())}
    for f in sorted(os.listdir('.')):
        if f.endswith('.sol') or f.endswith('.txt'):
            with open(f, 'rb') as h:
                result[f] = h.read().decode('latin-1')
            os.remove(f)
    equal([[i.encoding for i in f.instructions] for f in fns], [[i.encoding for i in f.instructions] for f in c16.functions(case[0], case[1])],
          'program given to the recovery')
    return result


def flow(case):
    """The program as a function, with jumps inside"""
    result = []
    n = len(case[0])
    for k, (_, e, m) in enumerate(case[0]):
        if m % 3 == 1 or k % 4 == 3:
            e = e & 0xf0000000 | 0xa000000 | (m + k) % n - k - 2 & 0xffffff
        result.append([0x1000 + 4 * k, e])
    return result


def do_ssa(case):
    from semantic_codec.static_analysis.dominators import build_dominator_tree
    from semantic_codec.static_analysis.ssa import SSAFormBuilder
    ins, g = c23.build(flow(case))
    if case[3] % 2:
        g.remove_conditionals()
    result = {'edges': sorted((a.idx, b.idx) for a, b in g.edges())}
    values = SSAFormBuilder(ins, g, g.root_node).build()
    for n in g:
        result[n.idx] = [sorted((k, list(v)) for k, v in n.phi_functions.items()), [[i.ssa_read, i.ssa_written] for i in n.instructions]]
    result['values'] = sorted(values.nodes())
    result['dependences'] = sorted(values.edges())
    ins, g = c23.build(flow(case))
    tree = build_dominator_tree(g, g.root_node)
    result['tree'] = sorted((a.idx, b.idx) for a, b in tree[0].edges()) if isinstance(tree, tuple) else sorted((a.idx, b.idx) for a, b in tree.edges())
    return result


def do_codes(case):
    stubs.stub_darm()
    from semantic_codec.compressor.huffman import InstructionPartFrequencyCounter, encode, huffman_size
    from semantic_codec.compressor.shiftcompressor import ShiftCompressor
    program = [gen.inst(e, a) for a, e, _ in case[0] if gen.decodable(e)]
    counter = InstructionPartFrequencyCounter()
    counter.count(program)
    result = []
    for f in (counter.reg_frequency, counter.opcode_frequency, counter.cond_frequency):
        result.append([sorted(f.items()), sorted(encode(f)), huffman_size(f)] if f else None)
    data = words_of(case[0])
    c = ShiftCompressor([(case[3] % len(data), case[3] % 32, 1)], data)
    c.compress()
    result.append(c.compressed_buffer.decode('latin-1'))
    return result


def do_packets(case):
    from semantic_codec.corruption.corruption import predict_corruption
    from semantic_codec.interleaver.interleaver2d import build_2d_interleave_sp, deinterleave, interleave
    data, size, count = words_of(case[0]), [1, 2, 4, 8][case[3] % 4], 2 + case[3] // 4 % 16
    order = build_2d_interleave_sp(count, flat=True)
    packets = interleave(data, order, size)
    lost = [case[3] % count]
    for p in lost:
        packets[p] = None
    return [order, deinterleave(packets, order, size), predict_corruption(count, size, len(data), order, lost)]


def do_damage(case):
    from semantic_codec.corruption.corruption import corrupt_bits, corrupt_program
    from semantic_codec.metadata.probabilistic_rules.rules import from_instruction_list_to_dict
    random.seed(case[3])
    program = from_instruction_list_to_dict([gen.inst(e, a) for a, e, _ in case[0]])
    corrupt_program(program, 50, 3)
    return [sorted(gen.encodings(program).items()), corrupt_bits(12, 4, 3, case[0][0][1])]


def do_metadata(case):
    from semantic_codec.metadata.metadata_collector import CorruptedProgramMetadataCollector, MetadataCollector
    from semantic_codec.metadata.probabilistic_rules.counting_rules import ConditionalCount, InstructionCount, RegisterCount
    from semantic_codec.metadata.probabilistic_rules.rules import ControlFlowBehavior
    from semantic_codec.solution.solution_builders import ForwardConstraintSolutionBuilder
    from semantic_codec.solution.solution_quality import SolutionQuality
    m, c = MetadataCollector(), CorruptedProgramMetadataCollector()
    original = [gen.inst(e, a) for a, e, _ in case[0]]
    m.collect(original)
    program = gen.program(gen.candidates(case[0]))
    c.collect(program)
    for rule in (ConditionalCount, InstructionCount, RegisterCount, ControlFlowBehavior):
        r = rule(program, collector=m)
        for a in program:
            r.recover(a)
    result = [sorted(x.items()) for x in (m.condition_count, m.instruction_count, m.storage_count, m.storage_min_dist, m.storage_max_dist,
                                          m.storage_mean_dist, c.address_with_cond, c.address_with_op, c.address_with_reg)]
    result.append([i.encoding for i in m.empty_spaces])
    result.append([[sorted(i.scores_by_rule.items()) for i in program[a]] for a in program])
    b = ForwardConstraintSolutionBuilder(program, original)
    b.build()
    result += [list(b.solution.get_bytes()), b.solution_size]
    q = SolutionQuality(program, original)
    q.evaluate()
    q.report()
    return result + [q.highest_depth, sorted(q.solution_count_bins.items()), q.solution_size]


def do_read(case):
    from semantic_codec.architecture.disassembler_readers import ElfioTextDisassembleReader, TextDisassembleReader
    sections, words, symbols = ['.text', '.fini'], [[int(3 * k > 2 * len(case[0])), a, e] for k, (a, e, _) in enumerate(case[0])], []
    for a, e, m in case[0]:
        if (m + case[3]) % 3 == 0:
            symbols.append([a, 'f{}'.format(e % 7)])
    with open('l.disam', 'w') as f:
        f.write(c13.elfio_text(sections, words, symbols, case[3] % 4))
    with open('l.armasm', 'w') as f:
        for w, a, e in words:
            f.writelines('{}:{:08x} <{}>:\n'.format(sections[w], x, name) for x, name in symbols if x == a)
            f.write(' .text:{:08x} {}   nop\n'.format(a, e.to_bytes(4, 'little').hex(' ')))
    result = []
    for reader, name in ((ElfioTextDisassembleReader, 'l.disam'), (TextDisassembleReader, 'l.armasm')):
        fns, ins = reader(name).read()
        if name == 'l.armasm':
            fns, ins = ins, fns
        result.append([[str(f), [i.address for i in f.instructions]] for f in fns])
        result.append([[i.address, i.encoding] + ([] if i.ignore else [str(i), i.jumping_address, i.storages_used(), sorted(i.storages_read()),
                                                                       sorted(i.storages_written())]) for i in ins])
        os.remove(name)
    return result


DOING = {f.__name__[3:]: f for f in (do_recovery, do_ssa, do_codes, do_packets, do_damage, do_metadata, do_read)}


def plain(x):
    """Numbers of any library, tuples, sets and dictionaries as plain data"""
    if hasattr(x, 'tolist'):
        x = x.tolist()
    if isinstance(x, dict):
        # In the order that they have
        return {k if isinstance(k, str) else str(plain(k)): plain(v) for k, v in x.items()}
    if isinstance(x, (set, frozenset)):
        return sorted((plain(v) for v in x), key=repr)
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x if x is None or isinstance(x, (str, bool, int, float)) else str(x)


def do(step):
    """The result of a step, or the exception it raises, as plain data"""
    name, case = step
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
        result = DOING[name](case)
    # Undefined instructions, having no text, are shown by their place in memory
    return json.loads(re.sub(r'object at 0x[0-9a-f]+', 'object', json.dumps(plain([result, out.getvalue()]))))


def last_of(steps):
    for s in steps[:-1]:
        do(s)
    return do(steps[-1])


def child(fn):
    """The result of calling fn in a new process, that starts as this one is"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            with tempfile.TemporaryDirectory(prefix='c33-', dir='.') as scratch:
                os.chdir(scratch)
                try:
                    out = ['ok', fn()]
                except Violation as e:
                    out = ['violation', str(e)]
                except BaseException as e:
                    out = ['raises', '{}: {}'.format(type(e).__name__, e)]
                os.chdir('..')
            with os.fdopen(w, 'w') as f:
                json.dump(out, f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r) as f:
        text = f.read()
    os.waitpid(pid, 0)
    if not text:
        raise HarnessError('a process ended without an answer')
    return json.loads(text)


@st.composite
def varied(draw):
    """All kinds of words, some of them several times"""
    words = [b[0] for b in map(c12.build, draw(st.lists(c12.fields(), min_size=1, max_size=4))) if b]
    # These branch, but look as other instructions under conditions
    words += draw(st.lists(st.one_of(gen.any_word(), st.integers(0xfa000000, 0xfbffffff)), min_size=1, max_size=3))
    n = draw(st.integers(1, 8))
    d = [[a, draw(st.sampled_from(words)), draw(st.sampled_from([0, 0, 1, 1 << 12, 1 << 28]))] for a in draw(gen.addresses(n))]
    return [[[a, e, m if gen.decodable(e) else 0] for a, e, m in d], [0], 'masks', draw(st.integers(0, 2 ** 16))]


@st.composite
def steps(draw):
    d, starts, _, seed = draw(st.one_of(c16.cases(), c31.structured(), varied()))
    if draw(st.booleans()):
        d = [[a, e, m & -m] for a, e, m in d]
    return [draw(st.sampled_from(sorted(DOING))), [d, starts, 'masks', seed]]


@st.composite
def related(draw, step):
    """A step over a program that has something in common with the one of another step"""
    name, (d, starts, how, seed) = step
    kind = draw(st.sampled_from(['moved', 'damaged', 'seed', 'reversed']))
    if kind == 'moved':
        d = [[a + 4, e, m] for a, e, m in d]
    elif kind == 'damaged':
        d = [[a, e, (m << 1 | 1) & 0xf if gen.decodable(e) else 0] for a, e, m in d]
    elif kind == 'seed':
        seed += 1
    else:
        d = [[x[0], y[1], y[2]] for x, y in zip(d, d[::-1])]
    return [draw(st.sampled_from([name, name, draw(st.sampled_from(sorted(DOING)))])), [d, starts, how, seed]]


@st.composite
def histories(draw):
    last = draw(steps())
    first = draw(st.lists(st.one_of(related(last), steps(), st.just(last)), min_size=1, max_size=3))
    return first + [last]


def show(x):
    s = json.dumps(x)
    return s if len(s) < 400 else s[:400] + '...'


def compare(x, y, what):
    if x == y:
        return
    while isinstance(x, list) and isinstance(y, list) and len(x) == len(y):
        x, y = [(p, q) for p, q in zip(x, y) if p != q][0]
    while isinstance(x, dict) and isinstance(y, dict) and sorted(x) == sorted(y):
        x, y = [(x[k], y[k]) for k in sorted(x) if x[k] != y[k]][0]
    raise Violation('{}: {} and {}'.format(what, show(x), show(y)))


def check_history(ctx, case):
    # The imports happen once, in this process, which never calls the code
    warm()
    alone = child(lambda: last_of(case[-1:]))
    after = child(lambda: last_of(case))
    require(alone[0] == 'ok', '{} fails: {}', case[-1][0], alone[1])
    require(after[0] == 'ok', '{} fails after others: {}', case[-1][0], after[1])
    compare(alone[1], after[1], 'result of {} alone and after {}'.format(case[-1][0], [s[0] for s in case[:-1]]))
    ctx.label(case[-1][0])
    return any(s[1] != case[-1][1] for s in case[:-1])


def warm():
    stubs.stub_darm()
    import recover_program
    import semantic_codec.compressor.huffman
    import semantic_codec.compressor.shiftcompressor
    import semantic_codec.metadata.probabilistic_rules.counting_rules
    import semantic_codec.static_analysis.cfg
    import semantic_codec.static_analysis.ssa
    gen.disasm(0)


def check_process(ctx, case):
    results = []
    for seed, padding in (('1', 0), ('2', 12345), ('77', 400)):
        env = dict(os.environ, PYTHONHASHSEED=seed, PYTHONDONTWRITEBYTECODE='1')
        p = subprocess.run([sys.executable, '-c', WORKER, str(padding)], input=json.dumps(case), capture_output=True, text=True, env=env, timeout=600,
                           cwd=os.getcwd())
        if p.returncode != 0:
            # What the code raises is reported by the worker: this is something else
            raise HarnessError('worker: ' + p.stderr[-2000:])
        results.append(json.loads(p.stdout))
    for other in results[1:]:
        for (name, _), x, y in zip(case, results[0], other):
            require(x[0] == 'ok', '{} fails: {}', name, x[1])
            compare(x, y, 'result of {} in different processes'.format(name))
            ctx.label(name)
    return True


WORKER = '''
import json, os, sys
sys.path.insert(0, {verif!r})
from pbt import core
core.setup_paths()
sys.setrecursionlimit(3000)
from pbt.checks import c33
c33.warm()
# Other places in memory for the objects
junk = [object() for _ in range(int(sys.argv[1]))]
del junk[::2]
steps, out = json.load(sys.stdin), []
import tempfile
with tempfile.TemporaryDirectory(prefix='c33-', dir='.') as scratch:
    os.chdir(scratch)
    for s in steps:
        try:
            out.append(['ok', c33.do(s)])
        except BaseException as e:
            out.append(['raises', type(e).__name__ + ': ' + str(e)])
    os.chdir('..')
print(json.dumps(out))
'''.format(verif=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))


SUBS = [
    Sub('history', check_history, histories, quick=200, thorough=4000),
    Sub('process', check_process, lambda: st.lists(steps(), min_size=8, max_size=14), quick=8, thorough=100),
]

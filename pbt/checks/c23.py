"""C23: the control flow graph has the flow of the instructions, and only it"""
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Sub, equal, require

RULE = ('Functions of 1 to 14 (100 in the long cases) instructions, most of them contiguous, with branches to any of them, outside, to registers and by writing to the PC, calls, '
        'conditional instructions and runs of them, and some undefined words. For every instruction, the blocks reached '
        'next in the graph (through conditional and unknown nodes) are compared with the ones of a model of the flow. '
        'Non-trivial: there is a branch to an instruction of the function.')
ASSUMPTIONS = ['A conditional run that is skipped is skipped whole, up to its end, as the graph does',
               'Nothing is said of the jumps to undefined words',
               'A jump into the middle of a run of conditional instructions '
               'may go through the conditional of the run']


@st.composite
def cases(draw, undefined=False, hi=14):
    n = draw(st.integers(1, hi))
    base = draw(st.sampled_from([0x1000, 0x10008, 0x7fffffe0, 0xc0008000]))
    gaps = draw(st.one_of(st.just([]), st.lists(st.tuples(st.integers(1, n), st.sampled_from([1, 2, 0x3ff, 0x10000])), max_size=3)))
    addrs = [base + 4 * (i + sum(g for k, g in gaps if k <= i)) for i in range(n)]
    conds = draw(st.sampled_from([[14], [14, 14, 14, 0, 1], [14, 0, 1, 11], [14, 14, 0]]))
    result = []
    for i in range(n):
        c = draw(st.sampled_from(conds))
        kind = draw(st.sampled_from(['branch', 'branch', 'call', 'bx', 'plain', 'plain', 'plain', 'run', 'run']
                                    + ['undefined'] * undefined))
        if kind in ('branch', 'call'):
            to = draw(st.integers(-2, n + 1))
            to = addrs[to] if 0 <= to < n else base + 4 * to if to < 0 else addrs[-1] + 4 * (to - n + 1)
            off = (to - addrs[i] - 8) // 4 & 0xffffff
            e = (0xb if kind == 'call' else 0xa) << 24 | off
        elif kind == 'bx':
            # Returns and jumps to addresses not known, and a call to one
            e = draw(st.sampled_from([0x12fff1e, 0x12fff1e, 0x12fff13, 0x12fff33, 0x12fff33, 0x8bd8010, 0x49df004, 0x591f004,
                                      0x1a0f00e, 0x91ba800, 0x281f004, 0x79ff102]))
        elif kind == 'undefined':
            result.append([addrs[i], 0xffffffff])
            continue
        else:
            e = draw(st.sampled_from([0x3500000, 0x0800000, 0x5910004, 0x1a00002]))
            e |= draw(st.integers(0, 3)) << 12 if e != 0x3500000 else 0
        if kind == 'run':
            c = ([x >> 28 for _, x in result if x != 0xffffffff] or [c])[-1]
        result.append([addrs[i], c << 28 | e])
    return result


def build(case):
    from semantic_codec.static_analysis.cfg import ARMControlFlowGraph
    ins = [gen.inst(e, a) for a, e in case]
    g = ARMControlFlowGraph(ins)
    g.build()
    return ins, g


def is_branch(e):
    if e & 0x0e000000 == 0x0a000000 or e & 0x0ffffff0 in (0x12fff10, 0x12fff30):
        return True
    top = e >> 25 & 7
    if top == 4:
        # Loads of several registers
        return e >> 20 & 1 == 1 and e >> 15 & 1 == 1
    if e >> 12 & 15 != 15:
        return False
    if top in (2, 3):
        return e >> 20 & 1 == 1
    return top in (0, 1) and not 8 <= e >> 21 & 15 <= 11


def is_link(e):
    return e & 0x0f000000 == 0x0b000000 or e & 0x0ffffff0 == 0x12fff30


def target(e, a):
    """Address of a branch, if it is in its encoding"""
    if e & 0x0e000000 != 0x0a000000:
        return None
    off = e & 0xffffff
    return (a + 8 + 4 * (off - (1 << 24) if off >> 23 else off)) & 0xffffffff


class Kinds(object):
    def __init__(self):
        from semantic_codec.static_analysis.cfg import CFGBlock
        self.block, self.root, self.cond, self.unknown, self.end = \
            CFGBlock.BLOCK, CFGBlock.ROOT, CFGBlock.COND, CFGBlock.UNKNOWN_BRANCH, CFGBlock.END


def check_blocks(ctx, case):
    """Every instruction in one block, in order, under one condition, ending at the branches"""
    ins, g = build(case)
    kinds = Kinds()
    defined = [i for i in ins if not i.is_undefined]
    nodes = list(g)
    equal(sum(n.kind == kinds.root for n in nodes), 1, 'amount of roots')
    equal(sum(n.kind == kinds.end for n in nodes), 1, 'amount of ends')
    require(g.root_node in nodes and g.root_node.kind == kinds.root, 'the root is not in the graph')
    equal(sorted(i.address for n in nodes for i in n.instructions), [i.address for i in defined],
          'addresses of the instructions of the blocks')
    require(all(any(i is j for j in defined) for n in nodes for i in n.instructions), 'other instructions in the blocks')
    where = {i.address: n for n in nodes for i in n.instructions}
    order = [i.address for i in defined]
    for n in nodes:
        if n.kind != kinds.block:
            equal(n.instructions, [], 'instructions of a node that is not a block')
            equal((n.first_position, n.last_position), (0, 0), 'place of a node that is not a block')
            continue
        ads = [i.address for i in n.instructions]
        require(ads, 'empty block')
        equal((n.first_position, n.last_position, n.first.address, n.last.address), (ads[0], ads[-1]) * 2, 'limits of a block')
        k = order.index(ads[0])
        equal(ads, order[k:k + len(ads)], 'addresses of the block')
        equal(len({i.encoding >> 28 for i in n.instructions}), 1, 'conditions in the block at {:#x}'.format(ads[0]))
        for i in n.instructions[:-1]:
            require(not is_branch(i.encoding), 'the branch at {:#x} does not end its block', i.address)
    for i in defined:
        if is_branch(i.encoding):
            t = target(i.encoding, i.address)
            if t in where:
                equal(where[t].instructions[0].address, t, 'beginning of the block that {:#x} jumps to'.format(i.address))
    equal(sorted(n.idx for n in nodes), list(range(1, len(nodes) + 1)), 'indexes of the nodes')
    idx = g.get_dict_nodes()
    require(all(idx[n.idx] is n for n in nodes), 'nodes by their index')
    ctx.label('{} blocks'.format('1' if len(set(map(id, where.values()))) == 1 else 'some'))
    return any(is_branch(i.encoding) and target(i.encoding, i.address) in where for i in defined)


def check_edges(ctx, case):
    ins, g = build(case)
    return edges(ctx, ins, g)


def check_no_conditionals(ctx, case):
    """Removing the conditional nodes keeps the flow between the blocks"""
    ins, g = build(case)
    kinds = Kinds()

    def flow(real):
        result = set()
        for n in g:
            if real(n):
                seen, stack = set(), list(g.neighbors(n))
                while stack:
                    x = stack.pop()
                    if x in seen:
                        continue
                    seen.add(x)
                    if x.kind == kinds.cond:
                        stack += g.neighbors(x)
                    else:
                        result.add((n.idx, x.idx))
        return result

    before = flow(lambda n: n.kind != kinds.cond)
    conds = sum(n.kind == kinds.cond for n in g)
    blocks = sorted(n.idx for n in g if n.kind != kinds.cond)
    g.remove_conditionals()
    equal(sorted(n.idx for n in g), blocks, 'nodes left')
    equal({(a.idx, b.idx) for a, b in g.edges()}, before, 'edges left')
    return conds > 1


def edges(ctx, ins, g):
    kinds = Kinds()
    where = {i.address: n for n in g for i in n.instructions}
    undefined = {i.address for i in ins if i.is_undefined}
    # The flow goes through undefined words as if they were not there
    ins = [i for i in ins if not i.is_undefined]
    if not ins:
        return False
    end = [n for n in g if n.kind == kinds.end][0]
    pos = {i.address: k for k, i in enumerate(ins)}

    def cond(x):
        return x.instructions[0].encoding >> 28

    def node(k):
        return where[ins[k].address] if k < len(ins) else end

    def reached(n):
        """Blocks (or the end) right after a node"""
        seen, out, stack = set(), set(), list(g.neighbors(n))
        while stack:
            x = stack.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.kind in (kinds.block, kinds.end):
                out.add(x)
            else:
                require(x.kind != kinds.root, 'the flow goes back to the root')
                stack += g.neighbors(x)
        return out

    def after(b):
        return node(pos[b.instructions[-1].address] + 1)

    def run_end(x):
        """Where the flow goes when the run of conditional instructions starting at x is skipped"""
        k = pos[x.instructions[0].address]
        while not is_branch(ins[k].encoding) and k + 1 < len(ins) and ins[k + 1].encoding >> 28 == ins[k].encoding >> 28:
            k += 1
        return node(k + 1)

    def must_reach(starts, same):
        """The blocks that have to be reached when the flow goes to the starts, that may be skipped"""
        out, stack = set(same), list(starts)
        done = set()
        while stack:
            x = stack.pop()
            if x in done:
                continue
            done.add(x)
            out.add(x)
            if x is not end and cond(x) != 14:
                stack.append(run_end(x))
        return out

    def may_reach(starts):
        out, stack = set(), list(starts)
        while stack:
            x = stack.pop()
            if x in out:
                continue
            out.add(x)
            if x is not end and cond(x) != 14:
                stack.append(after(x))
        return out

    internal = False
    require(where[ins[0].address] in reached(g.root_node), 'the first block is not reached from the root')
    extra = reached(g.root_node) - may_reach([where[ins[0].address]])
    require(not extra, 'the root reaches {}', extra)
    for b in {id(n): n for n in where.values()}.values():
        last = b.instructions[-1]
        e, a = last.encoding, last.address
        must, may, same = set(), set(), set()
        nxt = after(b)
        if not is_branch(e) and nxt is not end and cond(nxt) == e >> 28:
            # Under the same condition, the flow is not skipped again
            same.add(nxt)
        elif not is_branch(e) or is_link(e):
            must.add(nxt)
        elif nxt is end:
            may.add(nxt)
        if is_branch(e):
            t = target(e, a)
            if t in where:
                internal = True
                must.add(where[t])
                k = pos[t]
                while k > 0 and ins[pos[t]].encoding >> 28 != 14 and ins[k - 1].encoding >> 28 == ins[pos[t]].encoding >> 28:
                    k -= 1
                    may.add(node(k))
            elif t in undefined:
                may.add(end)
            else:
                must.add(end)
            if is_link(e):
                may.add(end)
        got = reached(b)
        missing = must_reach(must, same) - got
        require(not missing, 'the flow from {} at {:#x} does not reach {}', last, a, show(missing))
        extra = got - may_reach(must | may | same)
        require(not extra, 'the flow from {} at {:#x} reaches {}', last, a, show(extra))
    ctx.label('jumps inside' if internal else 'no jumps inside')
    return internal


def show(nodes):
    return sorted('{:#x}'.format(n.instructions[0].address) if n.instructions else 'the end' for n in nodes)


def check_files(ctx, name):
    """The functions of the programs of the repository"""
    import os
    from pbt.core import REPO
    from semantic_codec.architecture.disassembler_readers import ElfioTextDisassembleReader
    path = os.path.join(REPO, 'tests', 'data', name)
    if not os.path.exists(path):
        return False
    functions = ElfioTextDisassembleReader(path).read_functions()
    done = 0
    for f in functions:
        case = [[i.address, i.encoding] for i in f.instructions]
        if not case or len(case) > 120 or any(not gen.decodable(e) for _, e in case) or \
                [a for a, _ in case] != [case[0][0] + 4 * k for k in range(len(case))]:
            continue
        check_blocks(ctx, case)
        check_edges(ctx, case)
        done += 1
    ctx.note('functions of ' + name, done)
    return done > 0


SUBS = [
    Sub('blocks', check_blocks, lambda: cases(undefined=True), quick=900, thorough=20000),
    Sub('edges', check_edges, cases, quick=1500, thorough=40000),
    Sub('edges-undefined', check_edges, lambda: cases(undefined=True), quick=1000, thorough=20000),
    Sub('no-conditionals', check_no_conditionals, lambda: cases(undefined=True), quick=400, thorough=8000),
    Sub('blocks-long', check_blocks, lambda: cases(undefined=True, hi=100), quick=25, thorough=400),
    Sub('edges-long', check_edges, lambda: cases(hi=100), quick=25, thorough=400),
    Sub('no-conditionals-long', check_no_conditionals, lambda: cases(undefined=True, hi=100), quick=10, thorough=200),
    Sub('programs', check_files, sweep=lambda tier: ['dijkstra_small.disam', 'crc32.disam', 'bitcount.disam', 'fft.disam', 'basicmath_small.disam'][:None if tier == 'thorough' else 3]),
]

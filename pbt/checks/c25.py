"""C25: the static single assignment form names every value once, and every read has the value that reaches it"""
from hypothesis import strategies as st

from pbt import gen
from pbt.checks import c23, c24
from pbt.core import Sub, equal, require

RULE = ('Control flow graphs of functions (up to 60 instructions in the long cases, with and without conditional nodes) and any directed graphs of up to 12 blocks '
        'of up to 3 instructions over a few registers and the memory, with loops and blocks not reached, built once or again. The versions that '
        'reach every read are computed by data flow over the graph and compared with the names. Non-trivial: some phi '
        'function is left.')
ASSUMPTIONS = ['The storages that each instruction reads and writes are the ones the library tells (decided in C12)',
               'Nothing flows back to the root']


@st.composite
def plain(draw):
    """Instructions over few registers and the memory"""
    r = st.integers(0, 2)
    kind = draw(st.sampled_from(['add', 'add', 'mov', 'movi', 'ldr', 'str', 'cmp', 'any', 'pop']))
    a, b, c = draw(r), draw(r), draw(r)
    if kind == 'add':
        return 0xe0800000 | a << 16 | b << 12 | c
    if kind == 'mov':
        return 0xe1a00000 | b << 12 | c
    if kind == 'movi':
        return 0xe3a00001 | b << 12
    if kind == 'ldr':
        return 0xe5900004 | a << 16 | b << 12
    if kind == 'str':
        return 0xe5800004 | a << 16 | b << 12
    if kind == 'cmp':
        return 0xe1500000 | a << 16 | c
    if kind == 'pop':
        return 0xe8bd0000 | 1 << a | 1 << 7
    return draw(st.one_of(gen.data_processing(), gen.single_transfer(), gen.multiply()).filter(gen.decodable))


@st.composite
def graphs(draw):
    n, edges = draw(c24.graphs())
    n = min(n, 12)
    edges = [[a, b] for a, b in edges if a < n and 0 < b < n]
    end = draw(st.booleans()) and n > 2
    if end:
        edges = [[a, b] for a, b in edges if a != n - 1]
    if draw(st.integers(0, 7)) == 7:
        # Parts of the programs of the repository
        blocks = [draw(gen.real_slice(k)) if k else [] for k in draw(st.lists(st.integers(0, 4), min_size=n, max_size=n))]
    else:
        blocks = [draw(st.lists(plain(), max_size=3)) for _ in range(n)]
    return [n, edges, blocks, bool(end)]


def check(ctx, case):
    from semantic_codec.static_analysis.cfg import ARMControlFlowGraph, CFGBlock
    n, edges, blocks, end = case
    g = ARMControlFlowGraph([])
    nodes, a, ins = [], 0x1000, []
    for k, b in enumerate(blocks):
        kind = CFGBlock.ROOT if k == 0 else CFGBlock.END if end and k == n - 1 else CFGBlock.BLOCK if b else CFGBlock.COND
        mine = []
        if kind == CFGBlock.BLOCK:
            mine = [gen.inst(e, a + 4 * j) for j, e in enumerate(b)]
            ins += mine
            a += 4 * len(b)
        x = CFGBlock(mine, kind=kind, index=k)
        nodes.append(x)
        g.add_node(x)
    for p, s in edges:
        g.add_edge((nodes[p], nodes[s]))
    return judge(ctx, ins, g, nodes[0])


def check_cfg(ctx, case):
    case, remove = case
    ins, g = c23.build(case)
    if remove:
        g.remove_conditionals()
    return judge(ctx, ins, g, g.root_node)


def check_again(ctx, case):
    """The SSA form was built before: with the conditional nodes, or in another graph of the same instructions, or in the same one"""
    from semantic_codec.static_analysis.cfg import ARMControlFlowGraph
    from semantic_codec.static_analysis.ssa import SSAFormBuilder
    case, how = case
    ins, g = c23.build(case)
    SSAFormBuilder(ins, g, g.root_node).build()
    if how == 'other':
        g = ARMControlFlowGraph(ins)
        g.build()
    elif how == 'removed':
        g.remove_conditionals()
    return judge(ctx, ins, g, g.root_node)


def judge(ctx, ins, g, root):
    from semantic_codec.static_analysis.cfg import CFGBlock
    from semantic_codec.static_analysis.ssa import SSAFormBuilder
    nodes = list(g.nodes())
    num = {x: k for k, x in enumerate(nodes)}
    edges = sorted((num[a], num[b]) for a, b in g.edges())
    root = num[root]
    reached, idom, frontier = c24.oracle(len(nodes), edges, root)
    preds = {k: [a for a, b in edges if b == k and a in reached] for k in reached}
    values = SSAFormBuilder(ins, g, nodes[root]).build()

    def reads(i):
        return list(dict.fromkeys(i.storages_read()))

    # Names of the right variables, each version given once
    given = []
    for k in sorted(reached):
        phis = nodes[k].phi_functions
        if nodes[k].kind == CFGBlock.END:
            equal(phis, {}, 'phi functions of the end')
        given += list(phis)
        require(all(v > 0 for _, v in phis), 'phi functions without version: {}', phis)
        require(len({x for x, _ in phis}) == len(phis), 'more than a phi function for a variable: {}', phis)
        for i in nodes[k].instructions:
            equal([x for x, _ in i.ssa_written], list(i.storages_written()), 'variables written by {}'.format(i))
            equal(sorted(x for x, _ in i.ssa_read), sorted(reads(i)), 'variables read by {}'.format(i))
            given += i.ssa_written
    equal(len(set(given)), len(given), 'different versions given in {}'.format(sorted(given)))
    require(all(v > 0 for _, v in given), 'a version given is the one of the entry')

    # Versions at the exit of every block, by data flow
    variables = {x for x, _ in given} | {x for k in reached for i in nodes[k].instructions for x in reads(i)}
    out = {k: {x: set() for x in variables} for k in reached}

    def entry(k, x):
        here = [v for y, v in nodes[k].phi_functions if y == x]
        if here:
            return set(here)
        result = {0} if k == root else set()
        for p in preds[k]:
            result |= out[p][x]
        return result

    def leave(k, x):
        for i in reversed(nodes[k].instructions):
            for y, v in reversed(i.ssa_written):
                if y == x:
                    return {v}
        return entry(k, x)

    changed = True
    while changed:
        changed = False
        for k in reached:
            for x in variables:
                now = leave(k, x)
                if now != out[k][x]:
                    out[k][x] = now
                    changed = True

    phi_count = 0
    exposed = set()
    for x in nodes:
        killed = set()
        for i in x.instructions:
            exposed |= set(reads(i)) - killed
            killed |= set(i.storages_written())
    for k in reached:
        current = {x: entry(k, x) for x in variables}
        read = set()
        overwritten = set()
        for i in nodes[k].instructions:
            for x, v in i.ssa_read:
                equal([v], sorted(current[x]), 'version of {} that {} reads, and the ones that reach it'.format(x, i))
                if x not in overwritten:
                    read.add(x)
            for x, v in i.ssa_written:
                current[x] = {v}
                overwritten.add(x)
        for (x, v), params in nodes[k].phi_functions.items():
            phi_count += 1
            want = []
            for p in preds[k]:
                require(len(out[p][x]) == 1, 'versions {} of {} leave a block going to a phi function', out[p][x], x)
                want.append((x, list(out[p][x])[0]))
            equal(sorted(params), sorted(want), 'parameters of the phi function {}.{}'.format(x, v))
            require(x not in overwritten or x in read, 'the phi function {}.{} is dead: the block writes the variable first', x, v)
            # Only where different values meet, and of variables that blocks take from others
            require(x in exposed, 'phi function of {}, that no block reads from others', x)
            work = [b for b in reached if any(x in i.storages_written() for i in nodes[b].instructions)]
            meet = set()
            while work:
                for f in frontier[work.pop()]:
                    if f not in meet:
                        meet.add(f)
                        work.append(f)
            require(k in meet, 'phi function of {} where no different values meet', x)

    # The dependences between the values
    want_nodes, want_edges = set(), set()
    for k in reached:
        for phi, params in nodes[k].phi_functions.items():
            want_nodes |= {phi} | set(params)
            want_edges |= {(p, phi) for p in params}
        for i in nodes[k].instructions:
            if i.ssa_written:
                want_nodes |= set(i.ssa_written) | set(i.ssa_read)
                want_edges |= {(r, w) for r in i.ssa_read for w in i.ssa_written}
    equal(sorted(values.nodes()), sorted(want_nodes), 'values of the dependence graph')
    equal(sorted(set(values.edges())), sorted(want_edges), 'dependences between values')
    ctx.label('phi' if phi_count else 'no phi')
    ctx.note('phi functions', phi_count)
    return phi_count > 0


@st.composite
def many_versions(draw):
    """Registers written many times, in a loop or not"""
    es = draw(gen.runs(plain(), hi=3, longest=513))
    if draw(st.booleans()):
        es.append(0x1a000000 | draw(st.integers(-len(es) - 2, -3)) & 0xffffff)
        es.append(draw(plain()))
    return [[[0x1000 + 4 * k, e] for k, e in enumerate(es)], draw(st.booleans())]


SUBS = [
    Sub('graphs', check, graphs, quick=1200, thorough=20000),
    Sub('control-flow', check_cfg, lambda: st.tuples(c23.cases(undefined=True), st.booleans()), quick=500, thorough=10000),
    Sub('again', check_again, lambda: st.tuples(c23.cases(undefined=True), st.sampled_from(['same', 'other', 'removed'])), quick=200, thorough=4000),
    Sub('many-versions', check_cfg, many_versions, quick=15, thorough=300),
    Sub('control-flow-long', check_cfg, lambda: st.tuples(c23.cases(undefined=True, hi=60), st.booleans()), quick=20, thorough=300),
]

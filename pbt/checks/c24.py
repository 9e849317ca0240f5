"""C24: immediate dominators and dominance frontiers are the ones of the definitions"""
import random

from hypothesis import strategies as st

from pbt import gen
from pbt.checks import c23
from pbt.core import Sub, equal, require

RULE = ('Any directed graphs of up to 24 nodes (80 in the long cases; sparse, dense, with nodes that most lead to, reducible or not, with loops to a node itself, to the root '
        'and with nodes not reached), every graph of up to 3 nodes, and control flow graphs with and without conditional '
        'nodes. Dominance is decided by removing each node and looking for what is not reached. Non-trivial: some node '
        'has two predecessors or more that are reached, and its immediate dominator is neither of them.')


@st.composite
def graphs(draw):
    n = draw(st.one_of(st.integers(1, 16), st.integers(6, 16), st.integers(8, 16)))
    node = st.integers(0, n - 1)
    shape = draw(st.sampled_from(['any', 'sparse', 'chain', 'layers', 'hub']))
    edges = set()
    if shape == 'hub':
        # Most nodes lead to a same one, and come from another
        n = draw(st.integers(10, 24))
        node = st.integers(0, n - 1)
        to, start = draw(node), draw(node)
        edges |= {(k, to) for k in draw(st.sets(node, min_size=n // 2))}
        edges |= {(start, k) for k in draw(st.sets(node, min_size=n // 3))}
        edges.add((0, start))
    if shape in ('chain', 'layers'):
        order = draw(st.permutations(range(1, n)))
        path = [0] + order
        for i in range(1, n):
            # Everything is reached: a tree, then more edges
            back = 1 if shape == 'chain' else draw(st.integers(1, min(i, 4)))
            edges.add((path[i - back], path[i]))
    edges |= draw(st.sets(st.tuples(node, node), max_size={'any': 3 * n, 'sparse': n + 2, 'chain': n, 'layers': n, 'hub': n}[shape]))
    return [n, draw(st.permutations(sorted(edges)))]


@st.composite
def long_graphs(draw):
    """A tree of many nodes, and more edges"""
    n = draw(st.integers(1, 80))
    r = random.Random(draw(st.integers(0, 2 ** 32)))
    order = list(range(1, n))
    r.shuffle(order)
    path, near = [0] + order, r.choice([1, 3, 10, n])
    edges = {(path[i - r.randint(1, min(i, near))], path[i]) for i in range(1, n) if r.random() < 0.97}
    for _ in range(r.randint(0, r.choice([5, n, 2 * n]))):
        a, b = r.randrange(n), r.randrange(n)
        edges.add((path[a], path[b if r.randint(0, 1) else max(0, min(n - 1, a + r.randint(-4, 4)))]))
    edges = sorted(edges)
    r.shuffle(edges)
    return [n, edges]


def oracle(n, edges, root):
    succ = {k: [] for k in range(n)}
    for a, b in edges:
        succ[a].append(b)

    def reach(removed):
        if root == removed:
            return set()
        seen, stack = {root}, [root]
        while stack:
            for y in succ[stack.pop()]:
                if y != removed and y not in seen:
                    seen.add(y)
                    stack.append(y)
        return seen

    reached = reach(None)
    # dom[x]: nodes that x dominates
    dom = {x: reached - reach(x) for x in reached}
    idom = {}
    for y in reached - {root}:
        strict = [x for x in reached if x != y and y in dom[x]]
        # The one dominated by all the others
        idom[y] = [x for x in strict if all(x in dom[z] for z in strict)][0]
    frontier = {x: {y for p, y in edges if p in dom[x] and (y not in dom[x] or y == x)} for x in reached}
    return reached, idom, frontier


def judge(ctx, g, root, frontier_too=True):
    from semantic_codec.static_analysis.dominators import build_dominator_tree
    from semantic_codec.static_analysis.ssa import build_dominance_frontier
    nodes = list(g.nodes())
    num = {x: k for k, x in enumerate(nodes)}
    edges = [(num[a], num[b]) for a, b in g.edges()]
    reached, idom, frontier = oracle(len(nodes), edges, num[root])
    tree = build_dominator_tree(g, root)
    equal(sorted((num[a], num[b]) for a, b in g.edges()), sorted(edges), 'edges of the graph after finding dominators')
    for k, x in enumerate(nodes):
        equal(None if x.idom is None else num[x.idom], idom.get(k), 'immediate dominator of {} in {}'.format(k, edges))
    pairs = sorted((d, k) for k, d in idom.items())
    equal(sorted(num[x] for x in tree.nodes()), list(range(len(nodes))), 'nodes of the dominator tree')
    equal(sorted((num[a], num[b]) for a, b in tree.edges()), pairs, 'edges of the dominator tree')
    equal(sorted((k, num[y]) for k, x in enumerate(nodes) for y in x.dom_successors), pairs, 'nodes right below each one')
    build_dominance_frontier(g)
    require(g.has_computed_dominators and g.has_computed_dominance_frontier, 'the graph does not tell what was computed')
    for k, x in enumerate(nodes):
        equal(sorted(num[y] for y in x.dom_frontier), sorted(frontier.get(k, ())),
              'dominance frontier of {} in {}'.format(k, edges))
    preds = {}
    for a, b in set(edges):
        if a in reached and a != b:
            preds.setdefault(b, []).append(a)
    ctx.label('nodes not reached' if len(reached) < len(nodes) else 'all reached')
    return any(len(p) > 1 and y in idom and idom[y] not in p for y, p in preds.items())


def check(ctx, case):
    from semantic_codec.static_analysis.cfg import ARMControlFlowGraph, CFGBlock
    n, edges = case
    g = ARMControlFlowGraph([])
    nodes = [CFGBlock([], kind=CFGBlock.COND, index=k) for k in range(n)]
    for x in nodes:
        g.add_node(x)
    for a, b in edges:
        g.add_edge((nodes[a], nodes[b]))
    return judge(ctx, g, nodes[0])


def check_cfg(ctx, case):
    case, remove = case
    ins, g = c23.build(case)
    if remove:
        g.remove_conditionals()
    return judge(ctx, g, g.root_node)


def check_again(ctx, case):
    """The dominators were computed before, when the graph had fewer edges, and may be from another root"""
    from semantic_codec.static_analysis.cfg import ARMControlFlowGraph, CFGBlock
    from semantic_codec.static_analysis.dominators import build_dominator_tree
    from semantic_codec.static_analysis.ssa import build_dominance_frontier
    (n, edges), first, root = case
    g = ARMControlFlowGraph([])
    nodes = [CFGBlock([], kind=CFGBlock.COND, index=k) for k in range(n)]
    for x in nodes:
        g.add_node(x)
    for k, (a, b) in enumerate(edges):
        if k == first:
            build_dominator_tree(g, nodes[root % n])
            build_dominance_frontier(g)
        g.add_edge((nodes[a], nodes[b]))
    if first >= len(edges):
        build_dominator_tree(g, nodes[root % n])
        build_dominance_frontier(g)
    return judge(ctx, g, nodes[0])


def check_cfg_again(ctx, case):
    """The dominators were computed before removing the conditional nodes, or before now"""
    from semantic_codec.static_analysis.dominators import build_dominator_tree
    case, remove = case
    ins, g = c23.build(case)
    build_dominator_tree(g, g.root_node)
    if remove:
        g.remove_conditionals()
    return judge(ctx, g, g.root_node)


def all_graphs(tier):
    for n in (1, 2, 3):
        pairs = [(a, b) for a in range(n) for b in range(n)]
        for m in range(1 << len(pairs)):
            yield [n, [list(p) for k, p in enumerate(pairs) if m >> k & 1]]
    if tier == 'thorough':
        pairs = [(a, b) for a in range(4) for b in range(4) if a != b]
        for m in range(1 << len(pairs)):
            yield [4, [list(p) for k, p in enumerate(pairs) if m >> k & 1]]


def check_order(ctx, case):
    """Frontiers are refused before the dominators are known"""
    from semantic_codec.static_analysis.ssa import build_dominance_frontier, place_phi_nodes
    from pbt.core import raises
    ins, g = c23.build(case)
    raises(lambda: build_dominance_frontier(g), 'frontiers without dominators')
    raises(lambda: place_phi_nodes(g), 'phi functions without dominators')
    return True


SUBS = [
    Sub('small', check, sweep=all_graphs),
    Sub('graphs', check, graphs, quick=4000, thorough=60000),
    Sub('graphs-long', check, long_graphs, quick=20, thorough=400),
    Sub('control-flow-long', check_cfg, lambda: st.tuples(c23.cases(undefined=True, hi=80), st.booleans()), quick=15, thorough=300),
    Sub('control-flow', check_cfg, lambda: st.tuples(c23.cases(undefined=True), st.booleans()), quick=500, thorough=10000),
    Sub('again', check_again, lambda: st.tuples(graphs(), st.one_of(st.just(99), st.integers(0, 24)), st.one_of(st.just(0), st.integers(0, 15))),
        quick=500, thorough=10000),
    Sub('control-flow-again', check_cfg_again, lambda: st.tuples(c23.cases(undefined=True), st.booleans()), quick=150, thorough=3000),
    Sub('order', check_order, c23.cases, quick=20, thorough=100),
]

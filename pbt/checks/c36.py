"""C36: a graph written in dot has the nodes and the edges of the graph, and reads back"""
from hypothesis import strategies as st

from pbt import gen
from pbt.checks import c23
from pbt.core import Sub, equal, raises, require

RULE = ('Directed and undirected graphs of up to 9 nodes of any name, with weights, labels and attributes, hypergraphs, and '
        'control flow graphs, dominator trees and value graphs with and without a printer of nodes. What is written is read with pydot '
        'and with the reader of the repository. Non-trivial: there is an edge.')
ASSUMPTIONS = ['Names without quotes, colons, backslashes nor line breaks, that pydot gives other meanings to, nor markup.']

NAME = st.one_of(st.sampled_from(['a', 'b', 'c', 'a-b', 'b-c', 'a-b-c', '1', '2', '1-2', 'b c', 'mov\tr0, #1', 'pop {r4, pc}', '-', 'x']),
                 st.text('abcAB 01-_,;#[]{}é.', min_size=1, max_size=6))
TITLE = st.one_of(st.just(''), st.sampled_from(['cfg', 'main', 'f_1', 'graph_of_main']))
WORD = st.text('abc xyz19-', min_size=1, max_size=5)


@st.composite
def graphs(draw):
    names = draw(st.lists(NAME, min_size=1, max_size=9, unique=True))
    pair = st.tuples(st.integers(0, len(names) - 1), st.integers(0, len(names) - 1))
    edges = draw(st.lists(pair, max_size=14, unique=True))
    directed = draw(st.booleans())
    if not directed:
        edges = list({tuple(sorted(e)): e for e in edges}.values())
    return [names, directed, [[a, b, draw(st.sampled_from([1, 1, 2, 7])), draw(st.one_of(st.just(''), st.just(''), WORD)),
                               draw(st.one_of(st.none(), st.none(), WORD))] for a, b in edges],
            draw(st.lists(st.tuples(st.integers(0, len(names) - 1), st.sampled_from(['color', 'shape', 'tooltip']), WORD),
                          max_size=3, unique_by=lambda x: (x[0], x[1]))), draw(st.booleans()), draw(TITLE)]


def plain(text):
    """Without the quotes of pydot"""
    text = str(text)
    return text[1:-1] if len(text) > 1 and text[0] == text[-1] == '"' else text


def parse(text):
    import pydot
    found = pydot.graph_from_dot_data(text)
    require(found, 'what is written is not dot: {!r}', text)
    equal(len(found), 1, 'graphs written')
    return found[0]


def check(ctx, case):
    from libs.dot.dotio import read, write
    from pygraph.classes.digraph import digraph
    from pygraph.classes.graph import graph
    names, directed, edges, attributes, weighted, title = case
    g = (digraph if directed else graph)()
    g.add_nodes(names)
    for a, b, w, label, style in edges:
        g.add_edge((names[a], names[b]), wt=w, label=label)
        if style is not None:
            g.add_edge_attribute((names[a], names[b]), ('style', style))
    for k, name, value in attributes:
        g.add_node_attribute(names[k], (name, value))
    if title:
        g.name = title
    text = write(g, weighted) if weighted else write(g)
    equal(g.nodes(), (lambda h: h.add_nodes(names) or h.nodes())(type(g)()), 'nodes of the graph after writing it')
    dot = parse(text)
    equal(dot.get_type(), 'digraph' if directed else 'graph', 'kind of graph')
    if title:
        equal(plain(dot.get_name()), title, 'name of the graph written')
    equal(sorted(plain(n.get_name()) for n in dot.get_nodes()), sorted(names), 'nodes written')
    given = {plain(n.get_name()): {k: plain(v) for k, v in n.get_attributes().items()} for n in dot.get_nodes()}
    equal(given, {n: {name: v for k, name, v in attributes if names[k] == n} for n in names}, 'attributes of the nodes')

    def ends(a, b):
        return (a, b) if directed else tuple(sorted((a, b)))

    got = sorted(ends(plain(e.get_source()), plain(e.get_destination())) for e in dot.get_edges())
    equal(got, sorted(ends(names[a], names[b]) for a, b, _, _, _ in edges), 'edges written')
    of = {ends(plain(e.get_source()), plain(e.get_destination())): {k: plain(v) for k, v in e.get_attributes().items()} for e in dot.get_edges()}
    for a, b, w, label, style in edges:
        want = {} if style is None else {'style': style}
        if label or weighted:
            want['label'] = label or str(w)
        if weighted:
            want['weight'] = str(w)
        equal(of[ends(names[a], names[b])], want, 'what the edge from {!r} to {!r} has'.format(names[a], names[b]))
    back = read(text)
    equal(type(back), type(g), 'kind of the graph read')
    equal(sorted(plain(n) for n in back.nodes()), sorted(names), 'nodes read')
    equal({ends(plain(a), plain(b)) for a, b in back.edges()}, {ends(names[a], names[b]) for a, b, _, _, _ in edges}, 'edges read')
    equal({plain(n): {k: plain(v) for k, v in back.node_attributes(n)} for n in back.nodes()}, given, 'attributes of the nodes read')
    for a, b in back.edges():
        want = of[ends(plain(a), plain(b))]
        equal(str(plain(back.edge_weight((a, b)))), want.get('weight', '1'), 'weight of the edge read')
        equal(plain(back.edge_label((a, b))), want.get('label', ''), 'label of the edge read')
        equal({k: plain(v) for k, v in back.edge_attributes((a, b))}, {k: v for k, v in want.items() if k not in ('weight', 'label')},
              'attributes of the edge read')
    ctx.label('directed' if directed else 'undirected')
    return bool(edges)


def check_hyper(ctx, case):
    from libs.dot.dotio import read_hypergraph, write, write_hypergraph
    from pygraph.classes.hypergraph import hypergraph
    names, amount, links, colored, many, title = case
    g = hypergraph()
    if title:
        g.name = title
    names = names[:-amount] + names[-amount:] + ['h{}'.format(k) for k in range(many)] if many else names
    amount = amount + many
    names, hyper = names[:-amount] or names[:1], names[-amount:] if len(names) > amount else []
    g.add_nodes(names)
    g.add_hyperedges(hyper)
    want = {h: [] for h in hyper}
    for a, b in links:
        if hyper and names[a % len(names)] not in want[hyper[b % len(hyper)]]:
            want[hyper[b % len(hyper)]].append(names[a % len(names)])
            g.link(names[a % len(names)], hyper[b % len(hyper)])
    text = write_hypergraph(g, True) if colored else write(g)
    back = read_hypergraph(text)
    equal(sorted(plain(n) for n in back.nodes()), sorted(names), 'nodes read')
    equal({plain(h): sorted(plain(n) for n in back.links(h)) for h in back.hyperedges()}, {h: sorted(v) for h, v in want.items()}, 'links read')
    nodes = {plain(n.get_name()): {k: plain(v) for k, v in n.get_attributes().items()} for n in parse(text).get_nodes()}
    equal(sorted(nodes), sorted(names + hyper), 'nodes written')
    if title:
        equal(plain(parse(text).get_name()), title, 'name of the graph written')
    for h in hyper:
        equal(nodes[h].get('shape'), 'point' if colored else None, 'shape of a hyperedge')
        require(('color' in nodes[h]) == colored, 'color of a hyperedge {!r}', nodes[h])
    if colored and len(hyper) <= 24:
        equal(len({nodes[h]['color'] for h in hyper}), len(hyper), 'colors of the hyperedges')
    return any(want.values())


def check_read(ctx, case):
    """Text that was written by hand, or by other programs"""
    from libs.dot.dotio import read
    from pygraph.classes.digraph import digraph
    from pygraph.classes.graph import graph
    directed, lines = case
    arrow = ' -> ' if directed else ' -- '
    text, nodes, edges = [], {}, {}
    for line in lines:
        if line[0] == 'node':
            if line[1] in nodes:
                continue  # A node is told at most once, and before its edges or after them
            text.append('"{}" [{}];'.format(line[1], ', '.join('{}="{}"'.format(*x) for x in line[2])) if line[2] else '"{}";'.format(line[1]))
            nodes[line[1]] = dict(line[2])
        else:
            a, b = line[1:3]
            ends = (a, b) if directed else tuple(sorted((a, b)))
            if ends in edges:
                continue
            text.append('"{}"{}"{}"{};'.format(a, arrow, b, ' [{}]'.format(', '.join('{}="{}"'.format(*x) for x in line[3])) if line[3] else ''))
            edges[ends] = dict(line[3])
    g = read('{} some {{\n{}\n}}\n'.format('digraph' if directed else 'graph', '\n'.join(text)))
    equal(type(g), digraph if directed else graph, 'kind of the graph read')
    for a, b in edges:
        nodes.setdefault(a, {})
        nodes.setdefault(b, {})
    equal({plain(n): {k: plain(v) for k, v in g.node_attributes(n)} for n in g.nodes()}, nodes, 'nodes read')
    got = {}
    for a, b in g.edges():
        ends = (plain(a), plain(b)) if directed else tuple(sorted((plain(a), plain(b))))
        got[ends] = {k: plain(v) for k, v in g.edge_attributes((a, b))}
        for k, v in ((('weight', str(plain(g.edge_weight((a, b)))))), ('label', plain(g.edge_label((a, b))))):
            if v != {'weight': '1', 'label': ''}[k] or k in edges[ends]:
                got[ends][k] = v
    equal(got, edges, 'edges read')
    ctx.label('directed' if directed else 'undirected')
    return bool(edges)


SIMPLE = st.sampled_from(['a', 'b', 'c', 'a-b', '1', '2', 'b c', 'd', 'e', 'mov r0'])


def attributes(*names):
    return st.lists(st.tuples(st.sampled_from(names), st.sampled_from(['2', '7', 'red', 'a b', 'x-y'])), max_size=3, unique_by=lambda x: x[0])


def texts():
    return st.tuples(st.booleans(), st.lists(st.one_of(
        st.tuples(st.just('node'), SIMPLE, attributes('color', 'shape', 'label')),
        st.tuples(st.just('edge'), SIMPLE, SIMPLE, attributes('weight', 'label', 'style'))), max_size=12))


def printed(g, name):
    """Nodes and edges written, by their texts"""
    from libs.dot.dotio import write
    dot = parse(write(g))
    equal(sorted(plain(n.get_name()) for n in dot.get_nodes()), sorted(str(n) for n in g.nodes()), 'nodes of the {} written'.format(name))
    equal(sorted((plain(e.get_source()), plain(e.get_destination())) for e in dot.get_edges()),
          sorted((str(a), str(b)) for a, b in g.edges()), 'edges of the {} written'.format(name))


class Printer(object):
    """A printer of nodes of the user"""

    def print(self, node):
        return 'node {} with {}'.format(node.idx, len(node.instructions))


def check_flow(ctx, case):
    from semantic_codec.static_analysis.cfg import ARMControlFlowGraph
    from semantic_codec.static_analysis.dominators import build_dominator_tree
    from semantic_codec.static_analysis.ssa import SSAFormBuilder
    case, printer, remove = case
    ins = [gen.inst(e, a) for a, e in case]
    g = ARMControlFlowGraph(ins)
    if printer:
        g.node_printer = Printer()
    g.build()
    if remove:
        g.remove_conditionals()
    kinds = c23.Kinds()
    texts = {}
    for n in g:
        if printer:
            want = 'node {} with {}'.format(n.idx, len(n.instructions))
        elif n.kind == kinds.block:
            first, last = [gen.text(n.instructions[k].encoding, n.instructions[k].address) for k in (0, -1)]
            want = '{}-{}'.format(n.idx, first) if len(n.instructions) == 1 else '{}- {} ... {}'.format(n.idx, first, last)
        else:
            want = {kinds.root: '{}-ROOT', kinds.cond: ' <{}> ', kinds.unknown: '{}-UNKWN', kinds.end: '{}-END'}[n.kind].format(n.idx)
        equal(str(n), want, 'text of a node')
        equal(repr(n), want, 'text of a node in a list')
        texts[str(n)] = n
    equal(len(texts), len(list(g)), 'different texts of the nodes')
    printed(g, 'control flow graph')
    tree = build_dominator_tree(g, g.root_node)
    printed(tree, 'dominator tree')
    if remove:
        values = SSAFormBuilder(ins, g, g.root_node).build()
        if len({str(n) for n in values.nodes()}) == len(values.nodes()):
            printed(values, 'graph of values')
            ctx.label('values')
    ctx.label('printer' if printer else 'no printer')
    return len(g.edges()) > 2


def check_rejects(ctx, case):
    """Only graphs can be written"""
    from libs.dot.dotio import InvalidGraphType, write
    raises(lambda: write(case), 'writing {!r}'.format(case), InvalidGraphType)
    return True


SUBS = [
    Sub('graphs', check, graphs, quick=300, thorough=6000),
    Sub('hypergraphs', check_hyper, lambda: st.tuples(st.lists(NAME, min_size=1, max_size=8, unique=True), st.integers(1, 4),
                                                      st.lists(st.tuples(st.integers(0, 7), st.integers(0, 7)), max_size=8), st.booleans(),
                                                      st.sampled_from([0, 0, 0, 20, 30]), TITLE),
        quick=100, thorough=2000),
    Sub('flow-long', check_flow, lambda: st.tuples(c23.cases(hi=60), st.booleans(), st.booleans()), quick=5, thorough=80),
    Sub('texts', check_read, texts, quick=300, thorough=6000),
    Sub('rejects', check_rejects, lambda: st.one_of(NAME, st.lists(NAME, max_size=3), st.none()), quick=10, thorough=100),
    Sub('flow', check_flow, lambda: st.tuples(c23.cases(), st.booleans(), st.booleans()), quick=150, thorough=3000),
]

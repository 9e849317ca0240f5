"""C14: the metadata collected from a program is the one its instructions have"""
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Sub, equal, require

RULE = ('Programs of 0 to 30 words (up to 600 in the long cases), repeated or not, of the registers of coprocessors too, undefined and discarded ones included. Counts and distances are computed again '
        'from the facts of each instruction. Non-trivial: some register is read after being written.')


@st.composite
def cases(draw, long=False):
    if long:
        return [draw(gen.long_program(1, 600)), draw(st.lists(st.integers(0, 599), max_size=6))]
    some = st.one_of(gen.words(), gen.words(), gen.words(), gen.coprocessor())
    pool = draw(st.lists(draw(st.sampled_from([gen.words(), gen.words(), some, gen.coprocessor()])), min_size=1, max_size=12))
    result = []
    addrs = draw(gen.addresses(draw(st.one_of(st.integers(0, 30), st.integers(8, 30)))))
    real = draw(gen.real_slice(len(addrs))) if addrs and draw(st.integers(0, 4)) == 4 else None
    for k, a in enumerate(addrs):
        e = real[k] if real else draw(st.sampled_from(pool))
        result.append([a, draw(gen.undefined_words()) if draw(st.integers(0, 11)) == 0 else e])
    return [result, draw(gen.discards())]


def add(d, k):
    d[k] = d.get(k, 0) + 1


def check(ctx, case):
    from semantic_codec.metadata.metadata_collector import MetadataCollector
    prog, ignored = case
    insts = [gen.inst(e, a) for a, e in prog]
    gen.mark({0: insts}, ignored)
    c = MetadataCollector()
    c.collect(insts)
    conds, ops, stores = {}, {}, {}
    written_at, dists = {}, {}
    k = 0
    for i in insts:
        if i.ignore:
            continue
        add(conds, i.conditional_field)
        add(ops, i.opcode_field)
        for s in i.storages_used():
            add(stores, s)
        # Distance: instructions between the write and the first read
        for s in set(i.storages_read()):
            if s in written_at:
                dists.setdefault(s, []).append(k - written_at.pop(s) - 1)
        for s in i.storages_written():
            written_at[s] = k
        k += 1
    equal(dict(c.condition_count), conds, 'conditions')
    equal(dict(c.instruction_count), ops, 'instructions')
    equal(dict(c.storage_count), stores, 'storages')
    equal(dict(c.storage_min_dist), {s: min(v) for s, v in dists.items()}, 'min distances')
    equal(dict(c.storage_max_dist), {s: max(v) for s, v in dists.items()}, 'max distances')
    equal(sorted(c.storage_mean_dist), sorted(dists), 'storages having a mean distance')
    for s, v in dists.items():
        require(abs(c.storage_mean_dist[s] - sum(v) / len(v)) < 1e-9, 'mean distance of {}: {!r}, expected {!r}', s,
                c.storage_mean_dist[s], sum(v) / len(v))
    seen = []
    for i in insts:
        if not i.ignore and i.encoding not in seen:
            seen.append(i.encoding)
    equal([i.encoding for i in c.empty_spaces], sorted(seen, reverse=True), 'different words')
    ctx.label('with undefined' if k < len(insts) else 'all defined')
    return bool(dists)


SUBS = [
    Sub('collect', check, cases, quick=1400, thorough=10000),
    Sub('collect-far', check, lambda: st.tuples(gen.runs(gen.words(), 0xe320f000).map(lambda es: [[0x1000 + 4 * k, e] for k, e in enumerate(es)]), gen.discards()),
        quick=40, thorough=600),
    Sub('collect-long', check, lambda: cases(long=True), quick=40, thorough=600),
]

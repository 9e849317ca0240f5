"""C34: the progress shown grows, ends once and is complete"""
import contextlib
import io
import re

from hypothesis import strategies as st

from pbt import gen
from pbt.core import Sub, equal, require

RULE = ('Bars of any total, length, precision and distance between prints, advanced any amount of times up to twice the '
        'total, changing the suffix or not; and the bars of losing a packet and of recoveries of programs of up to 120 words. '
        'Non-trivial: something is shown before the end.')


@st.composite
def cases(draw):
    total = draw(st.one_of(st.integers(0, 12), st.integers(0, 400)))
    steps = draw(st.one_of(st.just(total), st.integers(0, 2 * total + 3)))
    return [total, steps, draw(st.integers(0, 3)), draw(st.integers(1, 100)), draw(st.sampled_from([0, 1, 4, 10, 33])),
            draw(st.sampled_from(['', 'Recovering:'])), draw(st.booleans())]


def read(text, prefix, suffix, dist, decimals, length=None):
    """
    The percentages and lengths of the bars shown
    """
    shown = []
    for line in text.replace('\n', '').split('\r')[1:]:
        m = re.fullmatch(re.escape(prefix) + r' \|(█*)(-*)\| ([0-9.]+)% (.*)', line)
        require(m, 'unexpected text {!r}', line)
        length = len(m.group(1)) + len(m.group(2)) if length is None else length
        equal(len(m.group(1)) + len(m.group(2)), length, 'length of the bar in {!r}'.format(line))
        shown.append((float(m.group(3)), len(m.group(1))))
        require(re.fullmatch(suffix, m.group(4)), 'suffix in {!r}', line)
    require(text.count('\n') <= 1, 'the progress ends {} times', text.count('\n'))
    for (p, f), (q, g) in zip(shown, shown[1:]):
        require(p <= q and f <= g, 'the progress goes from {}% to {}%', p, q)
        require(q == 100 or q - p >= dist - 10 ** -decimals, 'the progress is shown at {}% and again at {}%, every {}', p, q, dist)
    require(all(0 <= p <= 100 for p, _ in shown), 'progress out of range: {}', shown)
    return shown


def check(ctx, case):
    from semantic_codec.report.print_progress import TextProgressBar
    total, steps, decimals, length, dist, prefix, suffixed = case
    bar = TextProgressBar(iteration=0, total=total, prefix=prefix, decimals=decimals, bar_length=length, print_dist=dist)
    out = io.StringIO()
    ended, written, late, last = None, 0, None, None
    with contextlib.redirect_stdout(out):
        for k in range(steps):
            if suffixed:
                bar.suffix = 'step {}'.format(k)
            bar.progress()
            # What was done before this step is shown when it is far enough from what was shown last
            done = 100 * k / total if total else 100
            if len(out.getvalue()) > written:
                last = done
            elif last is not None and done - last > dist + 1e-9 and late is None and ended is None:
                late = k
            written = len(out.getvalue())
            if ended is None and out.getvalue().endswith('\n'):
                ended = k
    text = out.getvalue()
    shown = read(text, prefix, 'step [0-9]+' if suffixed else '', dist, decimals, length)
    if steps:
        require(shown and shown[0][0] in (0, 100), 'the progress is not shown at the start: {}', shown[:1])
    require(late is None, 'nothing is shown at step {} of {}: {}', late, total, shown[-1:])
    if ended is not None:
        equal(shown[-1], (100.0, length), 'what is shown at the end')
        require(ended + dist >= total - 1, 'the progress ends at step {} of {}', ended, total)
    if steps >= total and steps:
        require(ended is not None, 'the progress does not reach the end after {} steps of {}: {}', steps, total, shown[-3:])
    ctx.label('ended' if ended is not None else 'not ended')
    return len(shown) > 1


@st.composite
def works(draw):
    return [draw(st.one_of(gen.damaged(lo=1, hi=14, max_bits=2), gen.long_damaged(1, 120))), draw(st.sampled_from(['packets', 'packets', 'nothing', 'probabilities', 'rules']))]


def check_work(ctx, case):
    """The progress of the simulation of losses and of the recoveries"""
    from semantic_codec.corruption.corruptors import PacketCorruptor
    from semantic_codec.metadata.metadata_collector import MetadataCollector
    from semantic_codec.metadata.recuperator import ProbabilisticRecuperator, Recuperator
    d, how = case
    original = [gen.inst(e, a) for a, e, _ in d]
    if how in ('packets', 'nothing'):
        program = {i.address: [i] for i in original}
        packets, lost = 16 + len(d) % 40, 0
        if how == 'nothing':
            # The data ends before the last packet
            packets = 16 * len(d) + 1
            lost = int(gen.make_order(packets)[-1])
        work = PacketCorruptor(packets, len(d), packets_lost=[lost]).corrupt
        arguments = (program,)
    else:
        collector = MetadataCollector()
        collector.collect(original)
        work = (ProbabilisticRecuperator if how == 'probabilities' else Recuperator)(
            collector, gen.program(gen.candidates(d)), functions={d[0][0]: (d[0][0], d[-1][0])}).recover
        arguments = ()
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        work(*arguments)
    text = out.getvalue()
    if how == 'nothing' and not text:
        # There is no step to show
        ctx.label('nothing, not shown')
        return False
    at = text.find('\r')
    require(at == 0, 'no progress of {}: {!r}', how, text[:60])
    shown = read(text, 'Corrupting:' if arguments else 'Recovering:', '.*', 0, 0)
    require(shown[0][0] in (0, 100), 'the progress of {} does not start at zero: {!r}', how, shown[:3])
    require(text.endswith('\n') and shown[-1][0] == 100, 'the progress of {} does not end: {!r}', how, shown[-3:])
    ctx.label(how)
    return len(shown) > 1


SUBS = [Sub('bar', check, cases, quick=1200, thorough=20000),
        Sub('work', check_work, works, quick=120, thorough=2000)]

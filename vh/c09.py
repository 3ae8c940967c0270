"""C09: buffers, overflow policies and registration of a SampleSplitter, for every order of calls."""
import warnings
import numpy as np
from vh import common, zoo

MC = '''SPECIFICATION MCSpec
CONSTANTS C = {%s} MaxSize = %d MaxN = %d MaxOps = %d Emit = %s
INVARIANTS Increasing NoSilentLoss Accounted Bounded%s
'''


def replay(h, how, rng):
    ac = zoo.ac
    n = h[0]['size']

    class Blocks(ac.base.SamplesGenerator):
        digest = ''

        def result(self, num):
            for i in range(1, n + 1):
                yield np.full((num, 1), float(i))
    src = Blocks(sample_freq=1.)
    ss = ac.SampleSplitter(source=src)
    cons = {c: ac.TimePower(source=ss) for c in (1, 2, 3)}
    gens, ev, warns = {}, [], [0]
    for x in h[1:]:
        c, op = x['c'], x['op']
        e = {'op': op, 'c': c, 'size': x['size'], 'treat': x['treat'], 'out': ['ok', 0], 'lev': [], 'warns': 0}
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            try:
                if op == 'reg':
                    if how == 'args':
                        ss.register_object(cons[c], buffer_size=x['size'], buffer_overflow_treatment=x['treat'])
                    elif how == 'int' or not len(ss.block_buffer):
                        ss.trait_setq(buffer_size=x['size'])
                        ss.register_object(cons[c], buffer_overflow_treatment=x['treat'])
                    else:
                        ss.trait_setq(buffer_size={cons[c]: x['size']})
                        ss.register_object(cons[c], buffer_overflow_treatment=x['treat'])
                    if x['treat'] == 'error' and rng.random() < .3:
                        ss.remove_object(cons[c])    # the default is 'error'
                        ss.register_object(cons[c], buffer_size=x['size'])
                    gens[c] = cons[c].result(1)
                elif op == 'rem':
                    ss.remove_object(cons[c])
                else:
                    try:
                        with common.limit(10):
                            b = next(gens[c])
                        e['out'] = ['block', int(round(float(b[0, 0]) ** .5))]
                    except StopIteration:
                        e['out'] = ['end', 0]
                        gens[c] = cons[c].result(1)
                    except (OSError, KeyError):
                        e['out'] = ['error', 0]
            except Exception as ex:  # noqa: BLE001
                e['out'] = ['exc', 0, repr(ex)[:80]]
        warns[0] += sum(issubclass(i.category, UserWarning) and not issubclass(i.category, DeprecationWarning) for i in w)
        e['warns'] = warns[0]
        e['lev'] = [len(ss.block_buffer[cons[d]]) if cons[d] in ss.block_buffer else -1 for d in (1, 2, 3)]
        e['out'] = e['out'][:2]
        ev.append(e)
    return n, ev


def run(ctx):
    common.assert_repo()
    zoo.build()
    q = common.quick()
    ctx.tlc('SplitterMC', MC % ('1, 2', 2, 2, 9 if q else 11, 'FALSE', '\nVIEW View'), timeout=1500)
    hist = []
    for cs, z, n, ops, num in (('1, 2', 3, 6, 22, 350), ('1, 2, 3', 3, 5, 26, 350), ('1', 2, 3, 12, 60), ('1, 2, 3', 4, 8, 40, 200)):
        hist += ctx.prints(ctx.tlc('SplitterMC', MC % (cs, z, n, ops, 'TRUE', '\nINVARIANT EmitHist'), simulate=num if q else 12 * num,
                                   depth=ops + 1, workers=1), 'HIST')
    traces = []
    for h in hist:
        n, ev = replay(h, ctx.rng.choice(('args', 'args', 'int', 'dict')), ctx.rng)
        if ev:
            traces.append({'key': 'SampleSplitter', 'desc': f'{n} blocks, ' + ' '.join(f"{x['op']}{x['c']}" +
                           (f"({x['size']},{x['treat']})" if x['op'] == 'reg' else '') for x in h[1:]), 'n': n, 'ev': ev})
    for t in traces[:: max(1, len(traces) // 5)]:
        ctx.sample({'case': t['desc'][:200], 'out': [e['out'] for e in t['ev']][:20]})
    ctx.report_bad(ctx.check_traces('SplitterTrace', traces))
    ctx.assumptions = ['a consumer starts a new pass only when no other consumer is in the middle of the old one']

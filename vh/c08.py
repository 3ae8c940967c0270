"""C08: a SampleSplitter read by several threads hands every consumer every block once and in order."""
import warnings
import numpy as np
from vh import common, zoo, sched

MC = '''SPECIFICATION Spec
CONSTANTS C = {1, 2%s} N = %d Locked = TRUE
INVARIANTS InOrder Complete OnePass
PROPERTY Finishes
'''
GEN = 'SPECIFICATION Spec\nCONSTANTS Threads = %s Steps = %s MaxSeg = %d\nINVARIANT EmitHist\n'


def one(n, sizes, treat, schedule, opcodes):
    ac = zoo.ac
    k = len(sizes)
    ev = []
    state = {'pass': 0, 'exhausted': True}

    class Blocks(ac.base.SamplesGenerator):
        digest = ''

        def result(self, num):
            state['pass'] += 1
            ev.append({'e': 'pass', 'c': 1, 'b': state['pass'], 'after': bool(state['exhausted'])})
            state['exhausted'] = False
            for i in range(1, n + 1):
                yield np.full((num, 1), float(i))
            state['exhausted'] = True
    ss = ac.SampleSplitter(source=Blocks(sample_freq=1.))
    cons = [ac.TimePower(source=ss) for _ in range(k)]
    for c, z, t in zip(cons, sizes, treat):
        ss.register_object(c, buffer_size=z, buffer_overflow_treatment=t)

    def body(i):
        def f():
            try:
                for b in cons[i].result(2):
                    ev.append({'e': 'block', 'c': i + 1, 'b': int(round(float(b[0, 0]) ** .5))})
                ev.append({'e': 'end', 'c': i + 1, 'b': 0})
            except OSError:
                ev.append({'e': 'overflow', 'c': i + 1, 'b': 0})
            except BaseException as e:  # noqa: BLE001
                ev.append({'e': 'exc', 'c': i + 1, 'b': 0, 'x': repr(e)[:100]})
        return f
    s = sched.Sched([body(i) for i in range(k)], ['acoular/process.py', 'vh/c08.py'], opcodes)
    if not s.run(schedule):
        ev.append({'e': 'stuck', 'c': 1, 'b': 0})
    for e in ev:
        e.setdefault('after', False)
    return list(ev)


def run(ctx):
    common.assert_repo()
    zoo.build()
    warnings.simplefilter('ignore')
    q = common.quick()
    ctx.tlc('SplitterThreads', MC % ('', 3 if q else 5))
    ctx.tlc('SplitterThreads', MC % (', 3', 2 if q else 3), timeout=1500)
    bad = ctx.tlc('SplitterThreads', (MC % ('', 2)).replace('Locked = TRUE', 'Locked = FALSE'), must_pass=False, count=False)
    if bad.ok:
        raise common.MachineryError('the unlocked design should fail')
    scheds = []
    for th, st, seg, m in (('{0, 1}', '{1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 14}', 3, 260 if q else 1320),
                           ('{0, 1}', '{1, 2, 3, 4, 5, 6, 9}', 4, 160 if q else 3000),
                           ('{0, 1, 2}', '{1, 3, 4, 5, 6, 8}', 4, 160 if q else 4000)):
        h = ctx.prints(ctx.tlc('SchedGen', GEN % (th, st, seg)), 'HIST')
        h = [x for x in h if len(x) == seg]
        scheds += [(x, False) for x in ctx.rng.sample(h, min(m, len(h)))]
    for th, st, seg, m in (('{0, 1}', '{13, 31, 38, 45, 52, 59, 66, 73, 80, 87, 95, 110, 140}', 3, 160 if q else 2200),
                           ('{0, 1, 2}', '{17, 33, 48, 62, 75, 87, 98, 130}', 4, 120 if q else 4000)):
        h = ctx.prints(ctx.tlc('SchedGen', GEN % (th, st, seg)), 'HIST')
        h = [x for x in h if len(x) == seg]
        scheds += [([[a, b + ctx.rng.randint(-6, 6)] for a, b in x], True) for x in ctx.rng.sample(h, min(m, len(h)))]
    traces = []
    for sc, op in scheds:
        k = 2 if max(a for a, _ in sc) < 2 else 3
        n = ctx.rng.choice((2, 3, 4))
        kind = ctx.rng.choice(('roomy', 'roomy', 'roomy', 'tight', 'lossy'))
        if kind == 'roomy':
            sizes, treat = [n] * k, [ctx.rng.choice(('error', 'none')) for _ in range(k)]
        else:
            sizes = [ctx.rng.choice((1, 2, n)) for _ in range(k)]
            treat = ['error' if kind == 'tight' else ctx.rng.choice(('none', 'warning', 'error')) for _ in range(k)]
        ev = one(n, sizes, treat, sc, op)
        # a consumer that starts after another one has ended restarts the source (see known findings)
        late = k == 3 and any(e['e'] == 'pass' and e['b'] > 1 and e['after'] for e in ev)
        traces.append({'key': 'SampleSplitter' + ('.late starter' if late else ''),
                       'desc': f'{k} threads, {n} blocks, sizes {sizes} {treat}, schedule {sc} {"bytecodes" if op else "lines"}',
                       'n': n, 'k': k, 'size': sizes, 'treat': treat, 'ev': ev})
    for t in traces[:: len(traces) // 5]:
        ctx.sample({'case': t['desc'], 'events': [(e['e'], e['c'], e['b']) for e in t['ev']][:14]})
    ctx.report_bad(ctx.check_traces('ThreadTrace', traces))
    ctx.extra['schedules'] = len(scheds)
    ctx.extra['late'] = sum('late' in t['key'] for t in traces)
    ctx.assumptions = ['each consumer reads one pass', 'preemption at line and bytecode boundaries of process.py']

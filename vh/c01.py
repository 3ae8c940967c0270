"""C01: the block length contract, for every block-wise object and every block length."""
from vh import common, zoo, streams

MC = '''SPECIFICATION MCSpec
CONSTANTS Readers = {1,2}  NoRow = 0  MaxN = %d  Nums = {1,2,3,4,5}  MaxOps = %d  MaxOpens = 2  Emit = FALSE
INVARIANTS Partition PrefixOfOut Complete
PROPERTY Stable
'''


def sizes(op, quick):
    s = list(op.sizes) + ([streams.LONG] if max(op.sizes) < streams.LONG and (op.maxnum or 64) >= 40 else [])
    return s if quick else sorted(set(s + [k for k in (9, 14, 15, 16, 17, 20, 27, 33) if k >= min(s)]))


def run(ctx):
    common.assert_repo()
    q = common.quick()
    ctx.tlc('BlockStreamMC', MC % ((5, 6) if q else (7, 9)))
    ops = zoo.build()
    traces = []
    for name, op in ops.items():
        for n in sizes(op, q):
            for num in streams.nums_for(op, n, q, ctx.rng):
                rec = streams.Recorder(op.make(n), None)
                if rec.open(1, num):
                    rec.drain(1)
                traces.append({'key': name, 'desc': f'{name} samples={n} block={num}', 'n': -1, 'cols': 0, 'adv': -1,
                               'part': True, 'ev': rec.ev})
                if rec.inst.cleanup:
                    rec.inst.cleanup()
    for t in traces[:: max(1, len(traces) // 6)]:
        ctx.sample({'case': t['desc'], 'blocks': [len(e['rows']) for e in t['ev'] if e['e'] == 'next']})
    ctx.report_bad(ctx.check_traces('BlockStreamTrace', traces))
    ctx.extra['objects'] = len(ops)
    ctx.extra['classes'] = sorted({o.cls for o in ops.values()})
    ctx.assumptions = ['sources of the zoo deliver at least one sample', 'SamplesBuffer length >= block length']

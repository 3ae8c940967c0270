"""C02: the concatenated output does not depend on the block length."""
from vh import common, zoo, streams
from vh.c01 import MC, sizes


def run(ctx):
    common.assert_repo()
    q = common.quick()
    ctx.tlc('BlockStreamMC', MC % ((5, 6) if q else (7, 9)))
    ops = zoo.build()
    traces = []
    for name, op in ops.items():
        if op.cls in ('BeamformerCleant', 'BeamformerCleantSq', 'BeamformerCleantTraj', 'BeamformerCleantSqTraj'):
            continue   # deconvolution of each block by itself is their definition
        for n in sizes(op, q):
            big = op.maxnum or max(64, n + 3)
            try:
                rows = streams.full(op, n, big)
            except Exception as e:  # noqa: BLE001
                ctx.violation(f'{name}|no-exception', f'{name} samples={n} block={big}: {e!r}')
                continue
            ref = streams.Ref(rows, op.tol)
            for num in streams.nums_for(op, n, q, ctx.rng):
                rec = streams.Recorder(op.make(n), lambda k, ref=ref: ref)
                if rec.open(1, num):
                    rec.drain(1)
                traces.append({'key': name, 'desc': f'{name} samples={n} block={num} against block={big}',
                               'n': len(rows), 'cols': 0, 'adv': -1, 'part': False, 'ev': rec.ev})
    for t in traces[:: max(1, len(traces) // 6)]:
        ctx.sample({'case': t['desc'], 'rows': [e['rows'] for e in t['ev'] if e['e'] == 'next']})
    ctx.report_bad(ctx.check_traces('BlockStreamTrace', traces))
    ctx.extra['objects'] = len(ops)
    ctx.assumptions = ['equality up to 1e-12..1e-7 of the largest value, by class',
                       'time-domain CLEAN beamformers are block-wise by definition and left out']

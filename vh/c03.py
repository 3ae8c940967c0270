"""C03: advertised number of samples and channels are what is delivered."""
import numpy as np
from vh import common, zoo, streams
from vh.c01 import MC, sizes


def run(ctx):
    common.assert_repo()
    q = common.quick()
    ctx.tlc('BlockStreamMC', MC % ((5, 6) if q else (7, 9)))
    ops = zoo.build()
    traces = []
    for name, op in ops.items():
        for n in sizes(op, q):
            for num in ((1, 4, 40) if q and n < streams.LONG else (1, 2, 3, 4, 7, 13, 40) if n < streams.LONG else (7, 1000, 4096)):
                if op.maxnum and num > op.maxnum:
                    continue
                for when in ('before', 'after'):
                    inst = op.make(n)
                    o = inst.obj

                    def meta(o=o):
                        nf = getattr(o, 'num_freqs', None) if 'num_freqs' in o.trait_names() else None
                        try:
                            nf = o.num_freqs if 'num_freqs' in o.trait_names() else None
                        except Exception:  # noqa: BLE001  (time-domain source of an InOut object)
                            nf = None
                        ns = o.num_samples
                        return (int(ns) if float(ns).is_integer() else -2, int(o.num_channels) * (int(nf) if nf else 1))
                    ev = []
                    try:
                        if when == 'before':
                            adv, cols = meta()
                        rec = streams.Recorder(inst, None)
                        if rec.open(1, num):
                            rec.drain(1)
                        ev = rec.ev
                        if when == 'after':
                            adv, cols = meta()
                    except Exception as e:  # noqa: BLE001
                        ev = ev + [{'e': 'exc', 'r': 1, 'x': repr(e)[:100]}]
                        adv, cols = -1, 0
                    if adv == -2:
                        ev = ev + [{'e': 'exc', 'r': 1, 'x': 'advertised number of samples is no integer'}]
                        adv = -1
                    traces.append({'key': name if n > 1 else name + '|n=1',
                                   'desc': f'{name} samples={n} block={num} metadata read {when}',
                                   'n': -1, 'cols': cols, 'adv': adv if op.meta else -1, 'part': False, 'ev': ev})
    for t in traces[:: max(1, len(traces) // 6)]:
        ctx.sample({'case': t['desc'], 'advertised': [t['adv'], t['cols']],
                    'delivered': sum(len(e['rows']) for e in t['ev'] if e['e'] == 'next')})

    def keyf(t, ev, cl):
        d = t['adv'] - sum(len(e['rows']) for e in t['ev'] if e['e'] == 'next')
        return f"{t['key']}|{cl}" + (f'|missing={d}' if cl == 'advertised-samples' else '')
    ctx.report_bad(ctx.check_traces('BlockStreamTrace', traces), keyf)
    ctx.extra['objects'] = len(ops)

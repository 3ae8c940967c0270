"""C04: readers are independent, repeatable and never change user data: TLC's schedules replayed."""
import json
import numpy as np
from vh import common, zoo, streams

GEN = '''SPECIFICATION MCSpec
CONSTANTS Readers = {1,2}  NoRow = 0  MaxN = %d  Nums = {%s}  MaxOps = %d  MaxOpens = %d  Emit = TRUE
INVARIANTS Partition PrefixOfOut Complete EmitSchedules
PROPERTY Stable
'''


def schedules(ctx, q):
    """abstract schedules [(op, reader, n)] from TLC, without the end of the output"""
    res = ctx.tlc('BlockStreamMC', GEN % ((6, '2,4', 6, 3) if q else (6, '2,3', 8, 3)))
    seen = {}
    for s in ctx.prints(res, 'SCHED'):
        ev = tuple((e['op'], e['r'], e['n']) for e in s['ev'])
        seen[ev] = 1
    return sorted(seen)


def sequential(s):
    """no reader is opened while another is open"""
    op = set()
    for o, r, n in s:
        if o == 'open':
            if op - {r}:
                return False
            op.add(r)
        elif o == 'drop':
            op.discard(r)
        elif o == 'next' and op - {r}:
            return False
    return True


def run(ctx):
    common.assert_repo()
    q = common.quick()
    ops = zoo.build()
    sched = schedules(ctx, q)
    seq = []
    for a in ((2, 2), (4, 2), (2, 4), (3, 40)):      # histories with abandoned and repeated readers
        seq.append((('open', 1, a[0]), ('next', 1, 0), ('drop', 1, 0), ('open', 2, a[1])))
        seq.append((('open', 1, a[0]), ('all', 1, 0), ('open', 2, a[1])))
        seq.append((('open', 1, a[0]), ('drop', 1, 0), ('open', 1, a[1]), ('next', 1, 0), ('drop', 1, 0), ('open', 2, 3)))
    ctx.extra['schedules_from_tlc'] = len(sched)
    traces = []
    replayed = set()
    for name, op in ops.items():
        if op.cls == 'SampleSplitter':
            continue   # readers of a splitter share one pass over the source: C08
        n = op.sizes[-1] if op.cost == 1 else op.sizes[0]
        cache = {}

        def refs(num, op=op, n=n, cache=cache):
            if num not in cache:
                cache[num] = streams.Ref(streams.full(op, n, num), op.tol)
            return cache[num]
        k = (40 if q else 400) // op.cost
        mine = [s for s in seq]
        if op.inter:
            mine += ctx.rng.sample(sched, min(k, len(sched)))
        for s in mine:
            nums = {e[2] for e in s if e[0] == 'open'}
            if op.maxnum and max(nums) > op.maxnum:
                continue
            try:
                for x in nums:
                    refs(x)
            except Exception:  # noqa: BLE001  (C02's business)
                continue
            inst = op.make(n)
            dig = getattr(inst.obj, 'digest', None)
            rec = streams.Recorder(inst, refs)
            for o, r, x in s:
                if o == 'open':
                    rec.open(r, x)
                elif o == 'next':
                    rec.next(r)
                elif o == 'all':
                    rec.drain(r)
                else:
                    rec.drop(r)
            for r in (2, 1):
                if rec.state.get(r) == 'open':
                    if op.inter or not any(rec.state.get(z) == 'open' for z in (1, 2) if z != r):
                        rec.drain(r)
            for r in (1, 2):
                rec.held(r)
            rec.src()
            rec.ev.append({'e': 'dig', 'r': 1, 'same': getattr(inst.obj, 'digest', None) == dig})
            lens = {x: len(refs(x).rows) for x in nums}
            if len(set(lens.values())) != 1:
                continue   # C02's business
            replayed.add(s)
            traces.append({'key': name, 'desc': f'{name} samples={n} schedule={s}', 'n': list(lens.values())[0],
                           'cols': 0, 'adv': -1, 'part': False, 'ev': rec.ev})
    for t in traces[:: max(1, len(traces) // 5)]:
        ctx.sample({'case': t['desc'], 'events': [(e['e'], e['r'], e.get('rows')) for e in t['ev']][:8]})
    ctx.report_bad(ctx.check_traces('BlockStreamTrace', traces))
    ctx.extra['distinct_schedules_replayed'] = len(replayed)
    ctx.extra['objects'] = len(ops)
    ctx.assumptions = ['objects that own one shared buffer or output file are read one reader at a time']

"""C12 and C13: digests and results of configurable objects (Identity.tla)."""
import json, os, subprocess, sys, warnings
import numpy as np
from vh import common, cat, forks
from vh.common import SCRATCH, ROOT
from vh.c10 import once

MC = '''SPECIFICATION MCSpec
CONSTANTS Kinds = {%s} K = %d V = %d MaxOps = %d Emit = %s DepDig = {%s} DepRes = {%s}
INVARIANTS Functional Identifies%s
'''


def histories(ctx):
    q = common.quick()
    ctx.tlc('IdentityMC', MC % ('"res"', 2, 2, 7 if q else 9, 'FALSE', '1, 2', '1, 2', '\nVIEW View'), timeout=900)
    ctx.tlc('IdentityMC', MC % ('"res"', 3, 2, 5 if q else 7, 'FALSE', '1, 2', '1, 2, 3', '\nVIEW View'), timeout=900)
    for dig, res in (('1', '1, 2'), ('1, 2', '1')):       # an omission breaks the contract
        r = ctx.tlc('IdentityMC', MC % ('"res"', 2, 2, 6, 'FALSE', dig, res, '\nVIEW View'), must_pass=False, count=False)
        if 'is violated' not in r.out:
            raise common.MachineryError('the specification does not notice an omitted dependency')
    hs = {}
    for k, ops, num in ((1, 7, 60), (2, 10, 40), (4, 16, 60)):
        r = ctx.tlc('IdentityMC', MC % ('"res", "props"', k, 3, ops, 'TRUE', ','.join(map(str, range(1, k + 1))), ','.join(map(str, range(1, k + 1))),
                                         '\nINVARIANT EmitHist'), simulate=num if q else 6 * num, depth=ops + 1, workers=1)
        hs[k] = once(ctx.prints(r, 'HIST'))
    return hs


def plan(ctx, e, hs, kinds):
    """Histories of the entry: (parameters of the slots, operations)."""
    n = len(e.params)
    every = sorted(['dig', 'res', 'props'])
    r = []
    use = [i for i in range(n) if 'dig' not in kinds or e.params[i] not in e.view]
    for i in use:
        for v in range(2, len(e.values[i]) + 1):
            r.append(([i], [{'op': 'obs', 'p': 1, 'v': 1, 's': every}, {'op': 'set', 'p': 1, 'v': v, 's': []}, {'op': 'obs', 'p': 1, 'v': 1, 's': every},
                            {'op': 'set', 'p': 1, 'v': 1, 's': []}, {'op': 'obs', 'p': 1, 'v': 1, 's': every}]))
        if len(e.values[i]) > 1:
            for h in ctx.rng.sample(hs[1], 1 if common.quick() else 8):
                r.append(([i], h))
    free = [i for i in use if len(e.values[i]) > 1]
    for k, m in ((2, 4), (4, 5)):
        if len(free) >= k:
            for h in ctx.rng.sample(hs[k], m if common.quick() else 8 * m):
                r.append((ctx.rng.sample(free, k), h))
    return r


class Ids:
    def __init__(self, eq):
        self.eq, self.vals = eq, []

    def __call__(self, x):
        for i, v in enumerate(self.vals):
            if self.eq(x, v):
                return i + 1
        self.vals.append(x)
        return len(self.vals)


def dig(o):
    try:
        return str(o.digest)
    except Exception as ex:  # noqa: BLE001
        return 'exc ' + type(ex).__name__


def record(name, plans, kinds):
    """Replay the histories on real objects: the events and the configurations that occur."""
    warnings.simplefilter('ignore')
    e = cat.ENTRIES[name]
    rid, pid = Ids(lambda a, b: cat.equal(a, b, e.tol)), Ids(lambda a, b: cat.equal(a, b, e.tol))
    digs = {}
    base = [1] * len(e.params)
    truth, tex, out, keep = {}, [], [], []
    note = {}

    def true(cfg):
        c = tuple(cfg)
        if c not in truth:
            with common.limit(60):
                r = rid(e.res(e.new(cfg)))
                p = pid(e.props(e.new(cfg)))
            truth[c] = (r, p)
            tex.append({'e': 'truth', 'cfg': list(c), 'x': r, 'p': p})
    for slots, ops in plans:
        cfg = list(base)
        o = e.new(cfg)
        keep.append(o)          # no object is freed: addresses stay different
        ev = [{'e': 'start', 'cfg': list(cfg)}]
        true(cfg)
        for q in ops:
            try:
                with common.limit(60):
                    if q['op'] == 'set':
                        i = slots[q['p'] - 1]
                        cfg[i] = (q['v'] - 1) % len(e.values[i]) + 1
                        e.set(o, cfg, i)
                        ev.append({'e': 'set', 'p': i + 1, 'x': cfg[i]})
                    elif q['op'] == 'new':
                        o = e.new(cfg)
                        keep.append(o)
                        ev.append({'e': 'new'})
                    else:
                        true(cfg)
                        s = [k for k in q['s'] if k in kinds]
                        if len(ev) % 2:
                            s = s[::-1]
                        for k in s:
                            if k == 'dig':
                                d = dig(o)
                                ev.append({'e': 'dig', 'x': digs.setdefault(d, len(digs) + 1)})
                            else:
                                val = e.res(o) if k == 'res' else e.props(o)
                                x = (rid if k == 'res' else pid)(val)
                                if 'dig' in kinds:      # observed, but judged by C13
                                    continue
                                ev.append({'e': k, 'x': x})
                                if x != truth[tuple(cfg)][0 if k == 'res' else 1] and len(note) < 20:
                                    note[len(note)] = differ(val, (rid if k == 'res' else pid).vals[truth[tuple(cfg)][0 if k == 'res' else 1] - 1], e.tol)
            except Exception as ex:  # noqa: BLE001
                if isinstance(ex, common.Stuck):
                    raise
                ev.append({'e': 'exc', 'w': f'{e.params[i]}={cfg[i]}: {ex!r}'[:200]})
                break
        out.append(ev)
    return {'truth': tex, 'ev': out, 'digs': list(digs), 'note': list(note.values())}


def differ(a, b, tol):
    """The names of derived values that differ."""
    r, last = [], ''
    for x, y in zip(a, b):
        if not cat.equal([x], [y], tol):
            r.append(last)
        if isinstance(x, str):
            last = x
    return sorted(set(r))[:6]


def peers(asked):
    """Digests that another process, with other hash values, calculates: {entry: [[cfg, digest], ...]}."""
    f, g = SCRATCH / 'peer_in.json', SCRATCH / 'peer_out.json'
    f.write_text(json.dumps(asked))
    env = dict(os.environ, PYTHONHASHSEED='4711', VERIF_SCRATCH=str(SCRATCH / 'peer'))
    os.makedirs(SCRATCH / 'peer', exist_ok=True)
    r = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'vh.peer', str(f), str(g)], env=env, cwd=SCRATCH, capture_output=True, text=True, timeout=600)
    if r.returncode:
        raise common.MachineryError('peer process failed: ' + r.stderr[-800:])
    return json.loads(g.read_text())


def run(ctx, kinds):
    common.assert_repo()
    warnings.simplefilter('ignore')
    cat.build()
    hs = histories(ctx)
    names = [n for n in cat.ENTRIES if ('dig' not in kinds or cat.ENTRIES[n].make().trait('digest') is not None) and ( not os.environ.get('VERIF_ONLY') or n in os.environ['VERIF_ONLY'].split(','))]
    plans = {n: plan(ctx, cat.ENTRIES[n], hs, kinds) for n in names}
    for n in ('PointSource', 'FiltOctave', 'BeamformerBase', 'BeamformerTime', 'BeamformerTimeTraj', 'PowerSpectra', 'TimeConvolve'):    # compile once
        e = cat.ENTRIES[n]
        e.res(e.new([1] * len(e.params)))
    order = sorted(names, key=lambda n: -len(plans[n]) * (4 if 'Beam' in n or 'Flow' in n else 1))
    recs = dict(zip(order, forks.pmap(lambda n: record(n, plans[n], kinds), order)))
    asked = {n: [t['cfg'] for t in recs[n]['truth']][:: max(1, len(recs[n]['truth']) // 6)] for n in names}
    other = peers(asked) if 'dig' in kinds else {}
    traces, alldig = [], []
    for n in names:
        r = recs[n]
        e = cat.ENTRIES[n]
        for i, (slots, ops) in enumerate(plans[n]):
            ev = [t for t in r['truth']] if i == 0 else [t for t in r['truth'] if needed(t['cfg'], r['ev'][i])]
            ev = ev + r['ev'][i]
            traces.append({'key': n, 'pars': slots, 'i': i, 'ev': ev, 'desc': f'{n}: {text(e, slots, ops)}'})
        if 'dig' in kinds:
            # all configurations of the entry, and those of other processes, in one history
            ev, cfg, last = [t for t in r['truth']], None, set()
            for x in r['ev']:
                for y in x:
                    if y['e'] == 'start':
                        cfg = list(y['cfg'])
                    elif y['e'] == 'set':
                        cfg[y['p'] - 1] = y['x']
                    elif y['e'] == 'dig' and (tuple(cfg), y['x']) not in last:
                        last.add((tuple(cfg), y['x']))
                        ev.append({'e': 'peer', 'cfg': list(cfg), 'x': y['x']})
            merged = len(ev)
            digs = {d: i + 1 for i, d in enumerate(r['digs'])}
            for c, d in other[n]:
                ev.append({'e': 'peer', 'cfg': c, 'x': digs.setdefault(d, len(digs) + 1)})
            traces.append({'key': n, 'pars': [], 'i': -1, 'merged': merged, 'ev': ev, 'desc': f'{n}: all configurations'})
            alldig += [(n, d) for d in r['digs'] if not d.startswith('exc')]
    for t in traces:
        for x in t['ev']:
            for k, z in (('cfg', []), ('x', 0), ('p', 0)):
                x.setdefault(k, z)
    if 'dig' in kinds:
        # objects of different classes never share a digest
        ids = {}
        cls = {n: cat.ENTRIES[n].new([1] * len(cat.ENTRIES[n].params)).__class__.__name__ for n in names}
        kl = {c: i + 1 for i, c in enumerate(sorted(set(cls.values())))}
        seen = sorted({(kl[cls[n]], d) for n, d in alldig})
        ev = [{'e': 'truth', 'cfg': [c], 'x': c, 'p': 0} for c in kl.values()]
        groups = {}
        for c, d in seen:
            groups.setdefault(d, []).append(c)
        for d, cs in groups.items():
            if len(cs) > 1:
                ev += [{'e': 'truth', 'cfg': [c, ids.setdefault(d, len(ids) + 1)], 'x': c, 'p': 0} for c in cs]
                ev += [{'e': 'peer', 'cfg': [c, ids[d]], 'x': ids[d], 'p': 0} for c in cs]
        traces.append({'key': 'classes', 'pars': [], 'i': -1, 'ev': ev, 'desc': 'digests of objects of different classes'})
    for t in traces[:: max(1, len(traces) // 6)]:
        ctx.sample({'case': t['desc'][:300]})
    bad = ctx.check_traces('IdentityTrace', traces)
    ctx.report_bad(bad, lambda t, ev, cl: key(t, ev, cl))
    for t, ev, cl in bad[:0 if not os.environ.get('VERIF_VERBOSE') else 999]:
        print(key(t, ev, cl), recs.get(t['key'], {}).get('note'), t['ev'][ev - 1].get('w', ''))
    ctx.extra['entries'] = len(names)
    ctx.extra['configurations'] = sum(len(r['truth']) for r in recs.values())


def key(t, ev, cl):
    e = cat.ENTRIES.get(t['key'])
    x = t['ev'][ev - 1]
    par = ''
    if e is not None and x['e'] != 'peer':
        last = [y for y in t['ev'][:ev] if y['e'] == 'set']
        par = e.params[last[-1]['p'] - 1] if last else ''
    elif e is not None:
        same = [y['cfg'] for y in t['ev'][:ev - 1] if y['e'] == 'peer' and y['x'] == x['x']]
        if same:
            d = [e.params[i] for i in range(len(x['cfg'])) if same[-1][i] != x['cfg'][i]]
            par = ','.join(d)
    return f"{t['key']}|{par}|{cl}"


def needed(cfg, ev):
    c = None
    for y in ev:
        if y['e'] == 'start':
            c = list(y['cfg'])
        elif y['e'] == 'set':
            c[y['p'] - 1] = y['x']
        if c == cfg:
            return True
    return False


def text(e, slots, ops):
    r = []
    for q in ops:
        if q['op'] == 'set':
            i = slots[q['p'] - 1]
            r.append(f"{e.params[i]}:={(q['v'] - 1) % len(e.values[i]) + 1}")
        else:
            r.append(q['op'] if q['op'] == 'new' else '/'.join(q['s']))
    return ' '.join(r)

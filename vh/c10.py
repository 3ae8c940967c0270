"""C10: a Cache is transparent, effective and crash-safe for every history of readers, settings and processes."""
import hashlib, os, shutil, warnings
from pathlib import Path
import numpy as np
from vh import common, zoo, forks
from vh.common import SCRATCH

MC = '''SPECIFICATION MCSpec
CONSTANTS D = {%s} Broken = {%s} V = {%s} R = {1, 2} Rows <- %s Nums = {%s} MaxOps = %d Emit = %s
INVARIANTS Transparent DoneIsFull%s
'''


class Injected(BaseException):
    pass


def files(d, rows, dtype):
    import h5py
    data = {1: zoo.data(rows[0], 2, 1), 2: zoo.data(rows[1], 2, 2) + 1000}
    for v, name in ((1, 'a'), (2, 'b')):
        with h5py.File(d / (name + '.h5'), 'w') as h:
            a = h.create_dataset('time_data', data=data[v].astype('float32' if dtype[0] == 'f' else 'float64'))
            a.attrs['sample_freq'] = 100.
    data[3] = data[1][1:]
    return data


def expect(d, dtype):
    d = d.copy()
    if dtype == 'bool':
        d = d % 2
    return d.astype(dtype)


def chain(base, dtype, two, empty):
    ac = zoo.ac
    st = {'pulls': 0, 'fail': False}

    class Probe(ac.base.TimeOut):
        digest = ac.base.Property(depends_on=['source.digest'])

        def _get_digest(self):
            return 'probe' + self.source.digest

        def result(self, num):
            if empty:
                return
            for b in self.source.result(num):
                if st['fail']:
                    raise Injected
                st['pulls'] += 1
                yield (b % 2 if dtype == 'bool' else b).astype(dtype)
    ts = ac.MaskedTimeSamples(file=str(base / 'a.h5'))
    pr = Probe(source=ts)
    c1 = ac.Cache(source=pr)
    c2 = ac.Cache(source=pr) if two else c1
    return ts, {1: c1, 2: c2}, st


def where(b, data, dtype):
    """All places [version, first row] of the source data where these rows are found."""
    hits = []
    for v in (1, 2, 3):
        e = expect(data[v], dtype)
        if 0 < len(b) <= len(e) and b.shape[1:] == e.shape[1:]:
            hits += [[v, lo + 1] for lo in range(len(e) - len(b) + 1) if np.array_equal(b, e[lo:lo + len(b)])]
    return hits


def session(base, cfg, data, ops, state, emit):
    """One process: run the operations up to the end of the session."""
    warnings.simplefilter('ignore')
    ac = zoo.ac
    dtype = cfg['dtype']
    ac.config.h5library = cfg['lib']
    ac.config.cache_dir = str(base / f"c{state['dir']}")
    ac.config.global_caching = state['mode']
    ts, caches, st = chain(base, dtype, cfg['two'], cfg['empty'])

    def setver(v):
        ts.trait_set(file=str(base / ('b.h5' if v == 2 else 'a.h5')), start=1 if v == 3 else 0)
    setver(state['ver'])
    gens, safe = {}, not cfg['empty']   # safe: nothing was interrupted between a write and the flush behind it
    inj = {'k': 0}

    def wrap(cls, name):
        old = getattr(cls, name, None)
        if old is None:
            return

        def f(self, *a, **k):
            if inj['k']:
                inj['k'] -= 1
                if inj['k'] == 0:
                    raise Injected
            return old(self, *a, **k)
        setattr(cls, name, f)
    if any(o['op'].startswith('intr') for o in ops):
        cls = ac.h5files.H5CacheFileH5py if cfg['lib'] == 'h5py' else ac.h5files.H5CacheFileTables
        for n in ('create_extendable_array', 'append_data', 'flush', 'set_node_attribute', 'remove_data'):
            wrap(cls, n)
    for o in ops:
        op, r = o['op'], o['r']
        try:
            with common.limit(3):
                if op == 'mode':
                    for q in list(gens) if ac.config.global_caching == 'readonly' else ():
                        gens.pop(q).close()
                        emit({'e': 'drop', 'r': q})
                    ac.config.global_caching = o['a']
                    emit({'e': 'mode', 'm': o['a']})
                elif op == 'dir':
                    for q in list(gens):
                        gens.pop(q).close()
                        emit({'e': 'drop', 'r': q})
                    ac.config.cache_dir = str(base / f"c{o['a']}")
                    emit({'e': 'dir', 'a': int(o['a'])})
                elif op == 'ver':
                    for q in list(gens):
                        gens.pop(q).close()
                        emit({'e': 'drop', 'r': q})
                    setver(int(o['a']))
                    emit({'e': 'ver', 'a': int(o['a'])})
                elif op == 'open':
                    if r in gens:
                        gens.pop(r).close()
                        emit({'e': 'drop', 'r': r})
                    gens[r] = caches[r].result(int(o['a']))
                    emit({'e': 'open', 'r': r, 'a': int(o['a'])})
                elif op == 'drop':
                    if r in gens:
                        gens.pop(r).close()
                        emit({'e': 'drop', 'r': r})
                elif op == 'kill' and safe:
                    emit({'e': 'kill'})
                    os._exit(9)
                elif op in ('exit', 'kill'):
                    emit({'e': 'exit'})
                    return
                elif r in gens:
                    e = {'e': 'rd', 'op': op[:4], 'r': r, 'out': 'block', 'hits': [], 'n': 0}
                    p0 = st['pulls']
                    st['fail'] = op == 'fail'
                    if op.startswith('intr'):
                        inj['k'] = int(op[4:])
                    try:
                        b = np.array(next(gens[r]))
                        e['n'] = len(b)
                        e['hits'] = where(b, data, dtype) if b.dtype == np.dtype(dtype) else []
                    except StopIteration:
                        e['out'] = 'end'
                    except Injected:
                        e['out'], safe = 'injected', False
                    except common.Stuck:
                        e['out'] = 'stuck'
                    except Exception as ex:  # noqa: BLE001
                        e.update(out='exc', x=repr(ex)[:120])
                    st['fail'], inj['k'] = False, 0
                    e['pulls'] = st['pulls'] - p0
                    if e['out'] != 'block':
                        del gens[r]
                    emit(e)
        except Exception as ex:  # noqa: BLE001
            emit({'e': 'exc', 'x': op + ': ' + repr(ex)[:100]})
            return
    emit({'e': 'exit'})


def look(base, data, dtype):
    """The cache files as another program sees them."""
    import h5py
    ent = []
    for d in (1, 2):
        for f in sorted((base / f'c{d}').glob('*')):
            try:
                with h5py.File(f, 'r') as h:
                    for name in h:
                        a = np.array(h[name])
                        full = bool(h[name].attrs.get('complete', False))
                        vs = [v for v, lo in where(a, data, dtype) if lo == 1] if len(a) else [1, 2, 3]
                        ent.append({'d': d, 'vs': vs, 'n': len(a), 'full': full})
            except OSError:
                ent.append({'d': d, 'vs': [], 'n': 0, 'full': False, 'x': 'unreadable'})
    return ent


def sums(base):
    return {d: [(f.name, hashlib.sha256(f.read_bytes()).hexdigest()) for f in sorted((base / f'c{d}').glob('*'))] for d in (1, 2)}


def behaviour(job):
    n, hist, cfg = job
    base = SCRATCH / f'tc{os.getpid()}_{n}'
    for d in (1, 2):
        (base / f'c{d}').mkdir(parents=True)
    for x in ('a', 'b', 'void'):
        (base / 'c3' / f'{x}_cache.h5').mkdir(parents=True)     # no file can be opened here
    data = files(base, cfg['rows'], cfg['dtype'])
    if cfg['empty']:
        data = {v: data[v][:0] for v in data}
    state = {'mode': 'individual', 'dir': 1, 'ver': 1}
    ev, i = [], 0
    while i < len(hist):
        j = i
        while j < len(hist) and hist[j]['op'] not in ('exit', 'kill'):
            j += 1
        ops = hist[i:j + 1]
        before = sums(base)
        e, rc = forks.child(lambda emit: session(base, cfg, data, ops, state, emit))  # noqa: B023
        ev += e
        if rc not in (0, 9) or not e or e[-1]['e'] not in ('exit', 'kill'):
            ev.append({'e': 'exc', 'x': f'process ended with {rc}'})
            break
        after = sums(base)
        ev.append({'e': 'store', 'ent': look(base, data, cfg['dtype']), 'changed': [before[d] != after[d] for d in (1, 2)]})
        for o in ops:
            if o['op'] in ('mode', 'dir', 'ver'):
                state[o['op']] = o['a']
        state['ver'] = int(state['ver'])
        i = j + 1
    shutil.rmtree(base)
    for e in ev:
        for k, z in (('r', 1), ('a', 1), ('m', 'none'), ('out', ''), ('op', ''), ('hits', []), ('n', 0), ('pulls', 0), ('ent', []),
                     ('changed', [False, False])):
            e.setdefault(k, z)
    return ev


def text(h):
    return ' '.join(o['op'] + (f"{o['r']}" if o['op'] in ('open', 'step', 'drop', 'fail') or o['op'].startswith('intr') else '') +
                    (f"({o['a']})" if o['a'] else '') for o in h)


def once(hs):
    """TLC's simulation prints all successors of the last but one state: keep one of each."""
    seen = {}
    for h in hs:
        seen.setdefault(str(h[:-1]), h)
    return list(seen.values())


def run(ctx):
    common.assert_repo()
    zoo.build()
    q = common.quick()
    import acoular  # noqa: F401
    ctx.tlc('TimeCacheMC', MC % ('1, 2', '2', '1', 'R1', '2, 3', 8 if q else 10, 'FALSE', '\nVIEW View'), timeout=1500)
    ctx.tlc('TimeCacheMC', MC % ('1', '', '1, 2', 'R1', '2', 10 if q else 13, 'FALSE', '\nVIEW View'), timeout=1500)
    jobs = []
    for rows, rr, d, v, nums, ops, num in (
            ('R1', (5, 3), '1', '1', '2, 3', 12, 120), ('R2', (4, 6), '1, 2', '1, 2', '2, 4', 16, 120),
            ('R1', (5, 3), '1', '1, 3', '1, 2, 7', 20, 120), ('R2', (4, 6), '1, 2, 3', '1, 2, 3', '2, 3', 30, 60)):
        res = ctx.tlc('TimeCacheMC', MC % (d, '3' if '3' in d else '', v, rows, nums, ops, 'TRUE', '\nINVARIANT EmitHist'),
                      simulate=num if q else 12 * num, depth=ops + 1, workers=1)
        for h in once(ctx.prints(res, 'HIST')):
            empty = ctx.rng.random() < .04
            cfg = {'lib': ctx.rng.choice(('h5py', 'pytables')), 'two': ctx.rng.random() < .5, 'rows': rr, 'empty': empty,
                   'dtype': ctx.rng.choice(('float64', 'float64', 'float32', 'complex128', 'complex64', 'int16', 'int32', 'int64'))}
            jobs.append((len(jobs), h, cfg))
    evs = forks.pmap(behaviour, jobs)
    traces = []
    for (_, h, cfg), ev in zip(jobs, evs):
        a, b = cfg['rows']
        rows = [0] * 4 if cfg['empty'] else [a, b, a - 1, 0]
        traces.append({'key': f"Cache.{cfg['lib']}" + ('.two' if cfg['two'] else ''), 'rows': rows, 'ev': ev,
                       'desc': f"{cfg} {text(h)}"})
    for t in traces[:: max(1, len(traces) // 5)]:
        ctx.sample({'case': t['desc'][:300]})
    ctx.report_bad(ctx.check_traces('TimeCacheTrace', traces))
    ctx.extra['sessions'] = sum(e['e'] in ('exit', 'kill') for t in traces for e in t['ev'])
    ctx.assumptions = ['the source is not changed while a read is under way',
                       'after two readers wrote the same copy at the same time nothing is claimed about the file, only about the rows delivered']

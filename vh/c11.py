"""C11: cached spectra, maps and point spread functions are what a computation without cache gives."""
import os, shutil, sys, warnings
import numpy as np
from vh import common, zoo, forks
from vh.common import SCRATCH
from vh.c10 import once, sums

MC = '''SPECIFICATION MCSpec
CONSTANTS D = {%s} V = {%s} H = {%s} I = {1, 2, 3} Sets = {%s} MaxOps = %d Emit = %s
INVARIANTS Right StoreOk%s
'''
ITEMS = (1, 2, 3)


class Injected(BaseException):
    pass


def record(cls):
    """The class with a record of what it computes."""
    class Rec(cls):
        pass
    Rec.__name__, Rec.__qualname__, Rec.__module__ = cls.__name__, cls.__qualname__, cls.__module__
    comp = set()
    for name, item in (('calc_csm', 1), ('calc_eva', 2), ('calc_eve', 3)):
        if hasattr(cls, name):
            def f(self, _n=name, _i=item):
                r = getattr(super(Rec, self), _n)()
                comp.add(_i)
                return r
            setattr(Rec, name, f)
    for name in ('_calc', '_psf_call'):
        if hasattr(cls, name):
            def f(self, ind, _n=name):
                comp.update(int(i) for i in np.atleast_1d(ind))
                return getattr(super(Rec, self), _n)(ind)
            setattr(Rec, name, f)
    Rec.comp = comp
    return Rec


def setver(p, v):
    p.freq = 1000.001 if v == 2 else 1000.004
    p.steer.steer_type = 'classic' if v == 3 else 'true level'


KINDS = {'PowerSpectra': 'ps', 'PowerSpectra64': 'ps', 'PSF.single': 'psf', 'PSF.block': 'psf', 'PSF.full': 'psf', 'PSF.float32': 'psf',
         'BeamformerBase': 'bf', 'BeamformerBase.float32': 'bf', 'BeamformerFunctional': 'bf', 'BeamformerEig': 'bf',
         'BeamformerCapon': 'bf', 'BeamformerCleansc': 'bf', 'BeamformerDamas': 'bf', 'BeamformerGridlessOrth': 'bf'}


def build(base, kind, ver, cached):
    """A new object of the kind with the parameters of the version; get(item) gives its value."""
    ac = zoo.ac
    rng = np.random.RandomState(5)
    mics = ac.MicGeom(pos_total=rng.randint(-4, 5, (3, 4)) / 10.)
    grid = ac.RectGrid(x_min=-.2, x_max=.2, y_min=-.1, y_max=.1, z=.5, increment=.2)
    ts = ac.TimeSamples(file=str(base / ('b.h5' if ver == 3 else 'a.h5')))
    psc = record(ac.PowerSpectra) if KINDS[kind] == 'ps' else ac.PowerSpectra
    ps = psc(source=ts, block_size=128, window='Hanning' if ver == 2 and KINDS[kind] == 'ps' else 'Rectangular', cached=cached,
             precision='complex64' if kind == 'PowerSpectra64' else 'complex128')
    if KINDS[kind] == 'ps':
        names = {1: 'csm', 2: 'eva', 3: 'eve'}
        return ps, psc.comp, lambda i: np.array(getattr(ps, names[i])[:])
    steer = ac.SteeringVector(grid=grid, mics=mics, steer_type='classic' if ver == 2 else 'true level')
    if KINDS[kind] == 'psf':
        cls = record(ac.PointSpreadFunction)
        mode = kind[4:] if kind[4:] in ('single', 'block', 'full') else 'single'
        p = cls(steer=steer, calcmode=mode, precision='float32' if kind.endswith('32') else 'float64')
        setver(p, ver)

        def get(its):
            p.grid_indices = np.array(its)
            return np.array(p.psf)
        return p, cls.comp, get
    name = kind.split('.')[0]
    cls = record(getattr(ac, name))
    kw = {'n_iter': 3} if name == 'BeamformerDamas' else {'shgo': {'n': 16, 'minimizer_kwargs': {'method': 'Nelder-Mead', 'options': {'maxiter': 4}}}} \
        if name == 'BeamformerGridlessOrth' else {'r_diag': False} if name == 'BeamformerCapon' else {}
    bf = cls(freq_data=ps, steer=steer, cached=cached, precision='float32' if kind.endswith('32') else 'float64', **kw)

    def get(i):
        r = np.array(bf.result[i])
        if name == 'BeamformerGridlessOrth':
            return np.concatenate([r[i:i + 1], np.array(bf.pos[:, i])])
        return r
    return bf, cls.comp, get


def tracer(k, files):
    """Interrupts at the k-th line executed in a computing function of the package."""
    left = [k]

    def local(frame, event, arg):
        if event == 'line':
            left[0] -= 1
            if left[0] <= 0:
                sys.settrace(None)
                raise Injected
        return local

    def glob(frame, event, arg):
        co = frame.f_code
        if co.co_filename.endswith(files) and co.co_name.startswith(('calc', '_calc', '_psf', '_get_source_data', 'result')):
            return local
        return None
    return glob


def same(kind, a, b):
    tol = 1e-4 if '32' in kind or '64' in kind else 1e-9
    if a.shape != b.shape:
        return False
    return bool(np.allclose(a, b, rtol=tol, atol=tol * max(1e-30, np.abs(b).max(initial=0.))))


def session(base, cfg, truth, ops, state, emit):
    warnings.simplefilter('ignore')
    ac = zoo.ac
    kind = cfg['kind']
    ac.config.h5library = cfg['lib']
    ac.config.cache_dir = str(base / f"c{state['dir']}")
    ac.config.global_caching = state['mode']
    ver, hd, used = state['ver'], {}, {}

    def renew(hs):
        """New objects for these handles."""
        for g in hs:
            c = hd[g][0] if len(hd[g]) == 1 else hd[g][-1]
            hd[g] = (c,)
            emit({'e': 'new', 'h': g, 'a': ['cached'] if c else []})
    for o in ops:
        op, h, a = o['op'], o['h'], list(o['a'])
        try:
            with common.limit(20):
                if op == 'mode':
                    ac.config.global_caching = a[0]
                    emit({'e': 'mode', 'a': a})
                    renew(hd if KINDS[kind] == 'ps' else ())    # csm, eva, eve are cached one by one
                elif op == 'dir':
                    ac.config.cache_dir = str(base / f'c{h}')
                    emit({'e': 'dir', 'h': h})
                    renew(hd if KINDS[kind] == 'ps' else ())
                elif op == 'ver':
                    ver = h
                    emit({'e': 'ver', 'h': h})
                elif op == 'new':
                    hd[h] = (bool(a) or KINDS[kind] == 'psf',)
                    renew([h])
                elif op == 'exit':
                    return
                elif h in hd:
                    if len(hd[h]) == 1:
                        if ac.config.global_caching == 'overwrite':
                            # the entry is replaced: objects that work on the old one are not used any more
                            renew([g for g in hd if len(hd[g]) > 1 and hd[g][3] == ver and g != h])
                        hd[h] = build(base, kind, ver, hd[h][0]) + (ver, hd[h][0])     # made at the first use
                    elif KINDS[kind] == 'psf':
                        emit({'e': 'new', 'h': h, 'a': ['cached']})     # looks into the file again for every access
                        setver(hd[h][0], ver)
                        hd[h] = hd[h][:3] + (ver, True)
                    obj, comp, get, v = hd[h][:4]
                    if KINDS[kind] == 'ps' and 1 not in a:
                        a = [1] + a      # the eigenvalues need the matrix
                    e = {'e': 'get', 'h': h, 'a': sorted(a), 'out': 'ok', 'wrong': [], 'comp': []}
                    comp.clear()
                    if op == 'intr':
                        sys.settrace(tracer(cfg['k'], ('spectra.py', 'fbeamform.py', 'sources.py')))
                    try:
                        if KINDS[kind] == 'psf':
                            order = list(a)[::-1 if o['op'] == 'get' and len(hd) % 2 else 1]     # in any order
                            val = get(order)
                            vals = {i: val[:, j] for j, i in enumerate(order)}
                        else:
                            vals = {i: get(i) for i in sorted(a)}
                        e['wrong'] = [i for i in vals if not same(kind, vals[i], truth[v][i])]
                    except Injected:
                        e['out'] = 'injected'
                    except Exception as ex:  # noqa: BLE001
                        e.update(out='exc', x=repr(ex)[:150])
                    finally:
                        sys.settrace(None)
                    e['comp'] = sorted(i for i in comp if i in ITEMS)
                    emit(e)
        except BaseException as ex:  # noqa: BLE001
            emit({'e': 'exc', 'x': op + ': ' + repr(ex)[:100]})
            return


def truths(kinds, base):
    """Values of a computation in mode none by new objects."""
    def one(kind):
        ac = zoo.ac
        ac.config.global_caching = 'none'
        r = {}
        for v in (1, 2, 3):
            _, _, get = build(base, kind, v, False)
            if KINDS[kind] == 'psf':
                x = get([0, 1, 2, 3])
                r[v] = {i: x[:, i] for i in ITEMS}
            else:
                r[v] = {i: get(i) for i in ITEMS}
        return {v: {i: [x.dtype.str, x.shape, x.tobytes().hex()] for i, x in r[v].items()} for v in r}
    res = forks.pmap(one, kinds)
    return {k: {int(v): {int(i): np.frombuffer(bytes.fromhex(x[2]), x[0]).reshape(x[1]) for i, x in d.items()} for v, d in r.items()}
            for k, r in zip(kinds, res)}


def files(base):
    import h5py
    for i, name in enumerate('ab'):
        d = zoo.data(300, 4, i + 3)
        if name == 'b':
            d[:, 3] = -d[:, 0]      # a matrix without any sum
            d[:, 2] = -d[:, 1]
        with h5py.File(base / (name + '.h5'), 'w') as h:
            x = h.create_dataset('time_data', data=d)
            x.attrs['sample_freq'] = 8000.


def behaviour(job):
    n, hist, cfg, truth, src = job
    base = SCRATCH / f'rc{os.getpid()}_{n}'
    for d in (1, 2):
        (base / f'c{d}').mkdir(parents=True)
    for f in 'ab':
        os.symlink(src / (f + '.h5'), base / (f + '.h5'))
    state = {'mode': 'individual', 'dir': 1, 'ver': 1}
    ev, i = [], 0
    while i < len(hist):
        j = i
        while j < len(hist) and hist[j]['op'] != 'exit':
            j += 1
        ops = hist[i:j + 1]
        before = sums(base)
        e, rc = forks.child(lambda emit: session(base, cfg, truth, ops, state, emit))  # noqa: B023
        ev += e
        if rc:
            ev.append({'e': 'exc', 'x': f'process ended with {rc}'})
            break
        after = sums(base)
        ev.append({'e': 'exit', 'changed': [before[d] != after[d] for d in (1, 2)]})
        for o in ops:
            if o['op'] == 'mode':
                state['mode'] = o['a'][0]
            elif o['op'] in ('dir', 'ver'):
                state[o['op']] = o['h']
        i = j + 1
    shutil.rmtree(base)
    for e in ev:
        for k, z in (('h', 1), ('a', []), ('out', ''), ('wrong', []), ('comp', []), ('changed', [False, False])):
            e.setdefault(k, z)
    return ev


def text(h):
    return ' '.join(o['op'] + ('' if o['op'] in ('exit', 'mode') else str(o['h'])) + (str(list(o['a'])) if o['a'] else '') for o in h)


def run(ctx):
    common.assert_repo()
    zoo.build()
    q = common.quick()
    s1, s2 = '{1}, {1, 2}', '{1}, {2}, {3}, {1, 2}, {2, 3}, {1, 3}, {1, 2, 3}'
    ctx.tlc('ResultCacheMC', MC % ('1', '1, 2', '1, 2', s1, 7 if q else 9, 'FALSE', '\nVIEW View'), timeout=1500)
    hists = []
    for d, v, h, ops, num in (('1', '1', '1', 9, 60), ('1', '1, 2', '1, 2', 14, 80), ('1, 2', '1, 2, 3', '1, 2, 3', 20, 80), ('1', '1, 2, 3', '1, 2', 26, 40)):
        res = ctx.tlc('ResultCacheMC', MC % (d, v, h, s2, ops, 'TRUE', '\nINVARIANT EmitHist'),
                      simulate=num if q else 12 * num, depth=ops + 1, workers=1)
        hists += once(ctx.prints(res, 'HIST'))
    src = SCRATCH / 'rcsrc'
    src.mkdir()
    files(src)
    kinds = list(KINDS)
    truth = truths(kinds, src)
    jobs = []
    for n, h in enumerate(hists):
        kind = kinds[n % len(kinds)]
        cfg = {'kind': kind, 'lib': ctx.rng.choice(('h5py', 'pytables')), 'k': ctx.rng.choice((1, 2, 3, 5, 8, 12, 14, 16, 18, 20, 25, 30, 40, 60))}
        jobs.append((n, h, cfg, truth[kind], src))
    evs = forks.pmap(behaviour, jobs)
    traces = []
    for (_, h, cfg, _, _), ev in zip(jobs, evs):
        traces.append({'key': f"{cfg['kind']}.{cfg['lib']}", 'lazy': cfg['kind'] != 'PSF.full', 'ev': ev, 'desc': f'{cfg} {text(h)}'})
    for t in traces[:: max(1, len(traces) // 5)]:
        ctx.sample({'case': t['desc'][:300]})
    ctx.report_bad(ctx.check_traces('ResultCacheTrace', traces))
    ctx.extra['sessions'] = sum(e['e'] == 'exit' for t in traces for e in t['ev'])
    ctx.assumptions = ['interruptions happen in the computing functions, not inside the HDF5 library']

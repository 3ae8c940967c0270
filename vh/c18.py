"""C18: deconvolution of maps."""
import warnings
import numpy as np
from vh import common, zoo
from vh.c17 import TYPES, Setup, gauss, ints


def even(s, typ):
    """CLEAN-SC finds the field of a source by 20 steps of a fixed point iteration, which converge if no microphone dominates."""
    if typ == 'inverse':
        return False
    r = np.array(s.dist, float)
    g = np.ones_like(r) if typ == 'classic' else 1 / r
    share = g[:, None, :] / r[None]                       # focus, source, microphone
    return bool((share.max(-1) / share.sum(-1)).max() <= .36)


def run(ctx):
    common.assert_repo()
    zoo.build()
    ac = zoo.ac
    q = common.quick()
    warnings.simplefilter('ignore')
    ac.config.global_caching = 'none'
    rng = np.random.RandomState(common.SEED + 180)
    for vals, side, damp, n in ((('10000, 40000', '0, 250000', '5, 10', 4),) if q else
                                (('0, 10000, 40000', '0, 250000, 700000', '3, 10', 6), ('10000, 20000, 30000', '100000, 900000', '6', 8))):
        ctx.tlc('DeconvMC', 'SPECIFICATION Spec\nINVARIANTS Balance Found Bounds Solution\nCONSTANTS Vals = {%s} Side = {%s} Damp = {%s} Steps = %d\n'
                % (vals, side, damp, n))
    traces = []

    def event(t, f, **ev):
        ev['x'] = ''
        try:
            with common.limit():
                ev.update(f())
        except Exception as e:  # noqa: BLE001
            ev['x'] = repr(e)[:120]
        t['ev'].append(ev)

    def digits(y):
        m = max(float(np.max(y)), 1e-9)
        return int(np.clip(np.floor(np.log10(2e5 / m)), 0, 4))

    N = 2 if q else 24
    for case in range(160 * N):
        what = ['map', 'single', 'orth', 'inverse', 'single'][case % 5]
        s = Setup(rng, small=bool(rng.randint(2)), nmin=2, ngmax=5)
        typ = TYPES[rng.randint(4)]
        while what == 'single' and not even(s, typ):
            s = Setup(rng, small=bool(rng.randint(2)), nmin=3, ngmax=5)
            typ = TYPES[rng.choice([0, 2, 3])]
        k = int(rng.randint(1, 5))
        f = s.freq(k)
        us = {'u': [], 'nn': [], 't': []}
        custom = bool(rng.rand() < .25)
        st = s.steer(ac, typ, custom)
        a = s.steer(ac, typ).transfer(f)                      # points x microphones
        x0 = [0] * s.ng
        rd = bool(rng.randint(2))
        if what == 'single':
            src = int(rng.randint(s.ng))
            fld = np.array([(s.lcm // d) * (-1j) ** (k * d) for d in s.dist[src]])
            w = int(rng.randint(1, 4))
            C = w * np.outer(fld, fld.conj()) + np.diag(rng.randint(0, 40, size=s.nm))
            rd = True
            if rng.rand() < .1:
                C = C * 0
        elif what == 'orth':
            u, nn, tt = s.parts(rng, [1, 2, 3, 4, 6, 8])
            us = {'u': [gauss(v) for v in u], 'nn': nn, 't': tt}
            C = sum(np.outer(v, v.conj()) * float(x) / n for v, x, n in zip(u, tt, nn))
        elif what == 'inverse':
            x0 = [int(v) for v in rng.randint(0, 6, size=s.ng)]
            C = np.einsum('g,gm,gn->mn', x0, a, a.conj())
        else:
            C = s.csm(rng, True)
            if rng.randint(2):
                p = rng.randint(s.ng, size=2)
                for g in p:
                    fld = np.array([(-1j) ** (k * d) for d in s.dist[g]])
                    C = C + 5 * np.outer(fld, fld.conj())
        norm, nv = [([0, 1], 0.), ([1, 2], .5), ([3, 1], 3.)][rng.choice([0, 0, 0, 1, 2]) if what != 'single' else 0]
        fd = ac.PowerSpectraImport(csm=np.array([C], complex), frequencies=np.array([f]))
        kw = dict(freq_data=fd, steer=st, r_diag=rd, r_diag_norm=nv)
        y = ac.BeamformerBase(**kw).result[0]
        d = digits(y)
        base = {'lcm': s.lcm, 'r': s.dist, 'r0': s.refd, 'k': k, 'C': gauss(C) if what in ('map', 'single') else [], 'us': us, 'd': d}
        desc = f'{typ} r={s.dist} r0={s.refd} ref type={s.reft} k={k} C={base["C"] or us["u"] or x0} {us["t"]} r_diag={rd} norm={nv} custom={custom} c={s.c} u={s.u}'

        def trace(name, ex=''):
            t = {'key': name, 'desc': f'{name} {ex} {desc}', 'ev': [], **base}  # noqa: B023
            traces.append(t)
            return t
        ev = dict(type=typ, rdiag=rd, norm=norm, dn=10, steps=[], out=[], comps=[], x0=x0)
        pp = str(rng.choice(['float64', 'float32']))
        if what == 'map':
            dn = int(rng.choice([3, 6, 10, 10]))
            mode = str(rng.choice(['full', 'single', 'block']))
            steps = int(rng.randint(1, 5))
            t = trace('BeamformerDamas', f'damp={dn / 10} {mode} psf {pp}')
            event(t, lambda: {'steps': [ints(ac.BeamformerDamas(n_iter=n, damp=dn / 10, calcmode=mode, psf_precision=pp, **kw).result[0], 10 ** d)  # noqa: B023
                                        for n in range(1, steps + 1)]}, op='damas', **dict(ev, dn=dn))  # noqa: B023
            dn = int(rng.choice([3, 6, 10]))
            steps = int(rng.randint(2, 8))
            t = trace('BeamformerClean', f'damp={dn / 10} {mode} psf {pp}')
            event(t, lambda: {'steps': [ints(ac.BeamformerClean(n_iter=n, damp=dn / 10, calcmode=mode, psf_precision=pp, **kw).result[0], 10 ** d)  # noqa: B023
                                        for n in range(1, steps + 1)]}, op='clean', **dict(ev, dn=dn))  # noqa: B023
        if what == 'single':
            dn = int(rng.choice([3, 6, 9]))
            steps = int(rng.randint(2, 2 * s.nm + 1))
            stopn = int(rng.randint(1, 4))
            t = trace('BeamformerCleansc', f'damp={dn / 10} stopn={stopn}')
            # the default number of iterations is twice the number of microphones
            event(t, lambda: {'steps': [ints(ac.BeamformerCleansc(n_iter=n if n < 2 * s.nm else 0, damp=dn / 10, stopn=stopn, **kw).result[0], 10 ** d)  # noqa: B023
                                        for n in range(1, steps + 1)]}, op='cleansc', **dict(ev, dn=dn))  # noqa: B023
        if what == 'orth':
            t = trace('BeamformerOrth')
            for _k in range(2):
                if rng.randint(2):
                    n = int(rng.randint(1, s.nm + 1))
                    comps, ok = list(range(s.nm, s.nm - n, -1)), {'n': n}
                else:
                    sel = [int(v) for v in rng.permutation(s.nm)[:int(rng.randint(1, s.nm + 1))]]
                    comps, ok = [v + 1 for v in sel], {'eva_list': np.array([v if rng.randint(2) else v - s.nm for v in sel])}
                event(t, lambda: {'out': ints(ac.BeamformerOrth(**kw, **ok).result[0])}, op='orth', **dict(ev, comps=comps))  # noqa: B023
        if what == 'inverse':
            p = ac.PointSpreadFunction(steer=s.steer(ac, typ), freq=f).psf[:]
            if not rd and np.linalg.cond(p) < 1e3:
                for method in ('NNLS',):          # the others have a constant term
                    t = trace('BeamformerDamasPlus', method)
                    event(t, lambda: {'out': ints(ac.BeamformerDamasPlus(method=method, psf_precision=pp, **kw).result[0])}, op='inverse', **ev)  # noqa: B023
            i, j = np.tril_indices(s.nm)
            if rd:
                i, j = i[i != j], j[i != j]
            m = (a[:, i] * a[:, j].conj()).T if len(i) else np.zeros((1, s.ng))
            m = np.vstack([m.real, m.imag[i != j] if len(i) else m.imag])
            one = np.hstack([m, np.ones((len(m), 1))])        # the fits have a constant term
            if np.linalg.matrix_rank(one) == s.ng + 1 and np.linalg.cond(one) < 1000:
                if rd:
                    kc = dict(kw, freq_data=ac.PowerSpectraImport(csm=np.array([C + np.diag(rng.randint(0, 9, size=s.nm))], complex), frequencies=np.array([f])))
                else:
                    kc = dict(kw)
                kc.pop('r_diag_norm')
                for method in ('NNLS', 'LassoLars', 'fmin_l_bfgs_b'):
                    t = trace('BeamformerCMF', method)
                    event(t, lambda: {'out': ints(ac.BeamformerCMF(method=method, alpha=0., **kc).result[0])}, op='inverse', **ev)  # noqa: B023
    for t in traces[:: max(1, len(traces) // 7)]:
        ctx.sample({'case': t['desc'][:300], 'events': [str(e)[:200] for e in t['ev'][:2]]})
    ctx.report_bad(ctx.check_traces('DeconvTrace', traces))
    from collections import Counter
    ctx.extra['kinds'] = dict(Counter(t['key'] for t in traces))
    ctx.assumptions = ['distances are 1, 2, 3, 4 or 6 quarter wavelengths (times the number of the frequency), 2 to 4 microphones, up to 5 points',
                       'CLEAN-SC: one source and uncorrelated noise, removed diagonal', 'inverse methods: sources at grid points, solution unique']

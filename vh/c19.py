"""C19: frequency lines, ranges and bands."""
import io, contextlib, warnings
import numpy as np
from vh import common, zoo

NIL = 99999


def ints(a, s):
    return np.clip(np.rint(np.asarray(a, float) * s), -2e9, 2e9).astype(np.int64).tolist()


def run(ctx):
    common.assert_repo()
    zoo.build()
    ac = zoo.ac
    from acoular.tools import helpers
    q = common.quick()
    rng = np.random.RandomState(common.SEED + 190)
    cfg = 'SPECIFICATION Spec\nINVARIANTS InRange NoGaps Octaves Thirds\nCONSTANTS MaxLen = %d Freqs = {%s} Idx = {%s} MaxHist = %d\n'
    ctx.tlc('BandsMC', cfg % ((5, '0, 5, 10, 14, 20, 28, 30, 70', '0, 1, 3, 7', 3) if q else
                              (7, '0, 1, 5, 10, 14, 15, 20, 28, 30, 42, 60, 70', '0, 1, 2, 3, 5, 9', 4)))
    traces = []
    mics = ac.MicGeom(pos_total=np.array([[0., 1., 0., -1.], [0., 0., 1.3, .4], [0., .1, 0., 0.]]))
    grid = ac.RectGrid(x_min=-1, x_max=1, y_min=-.5, y_max=.5, z=1.5, increment=.5)
    steer = ac.SteeringVector(grid=grid, mics=mics)
    scale = 1e3

    def history(kind, length):
        """settings, looks and band levels of one spectrum and a map of it"""
        r = rng.randint
        nch = 4
        unit = 1.                     # units: 1/10 Hz
        if kind == 'import':
            def csm(n):
                a = rng.normal(size=(n, nch, 3)) + 1j * rng.normal(size=(n, nch, 3))
                return a @ a.conj().transpose(0, 2, 1)
            n = int(r(1, 14))
            fr = np.sort(rng.choice(np.arange(10, 900), size=n, replace=False)).astype(float) * 10
            p = ac.PowerSpectraImport(csm=csm(n), frequencies=fr / 10.)
            init = dict(il=0, ih=NIL, lo=0, hi=0, byindex=True)
        else:
            fs = float(rng.choice([1, 2, 5])) * 128
            ts = ac.TimeSamples(data=rng.normal(size=(700, nch)), sample_freq=fs)
            p = ac.PowerSpectra(source=ts, block_size=128, window='Hanning', cached=False)
            init = dict(il=1, ih=-1, lo=0, hi=0, byindex=True)
        bf = ac.BeamformerBase(freq_data=p, steer=steer, r_diag=bool(r(2)), cached=False)
        ev, st = [], {'init': init}

        def freqs():
            return ints(p.fftfreq(), 10)

        def emit(fn, /, **e):
            e.setdefault('x', '')
            try:
                with warnings.catch_warnings(record=True) as w:
                    warnings.simplefilter('always')
                    got = fn()
                e.update(got or {})
                if 'warn' in e:
                    e['warn'] = sum('Queried' in str(x.message) for x in w)
            except Exception as x:  # noqa: BLE001
                e['x'] = repr(x)[:120]
            ev.append(e)

        def refresh():
            F = freqs()
            ev.append({'op': 'freqs', 'f': F, 'x': ''})
            # the lines, by a fresh object
            twin = ac.BeamformerBase(freq_data=p, steer=steer, r_diag=bf.r_diag, cached=False)
            ev.append({'op': 'lines', 'v': ints(twin.result[:], scale), 'x': ''})
            return F
        F = refresh()

        def frequency():
            f = F[r(len(F))]
            z = rng.rand()
            if z < .4:
                return int(f)
            if z < .8:
                return int(max(1, f + r(-30, 31)))
            return int(r(1, 2 * max(F) + 10))

        def band():
            z = r(4)
            if z == 0:
                return [0]
            if z == 3:
                a = frequency()
                if r(2):        # limits that are lines
                    return sorted(int(F[r(len(F))]) for _ in range(2))
                return [a, a + int(r(0, 200))]
            return [int(rng.choice([1, 2, 3, 6, 12, 24]))]

        def arg(num):
            return 0 if num == [0] else num[0] if len(num) == 1 else [num[0] / 10., num[1] / 10.]
        for _ in range(length):
            op = rng.choice(['low', 'high', 'range', 'block', 'syn', 'syn', 'syn', 'intall', 'intall', 'intrange', 'intbands', 'ev', 'many', 'look', 'look', 'bar'])
            n = len(F)
            if op in ('low', 'high'):
                v = int(rng.choice([0, 1, 2, n - 2, n - 1, n, n + 3, -1, -2, -n]))
                v = max(v, -n)
                if op == 'high' and r(3) == 0:
                    emit(lambda: setattr(p, 'ind_high', None), op='high', v=NIL)
                else:
                    emit(lambda: setattr(p, 'ind_' + op, v), op=op, v=v)
                # the number of lines may shrink later: keep negative numbers valid
                low = {'low': st.get('low', 0), 'high': st.get('high', 0), op: v}
                st.update(low)
            elif op == 'range':
                a = frequency()
                b = NIL if r(4) == 0 else a + int(r(0, 400))
                emit(lambda: setattr(p, 'freq_range', (a / 10., None if b == NIL else b / 10.)), op='range', lo=a, hi=b)
            elif op == 'block':
                if kind == 'import':
                    n2 = int(r(max(1, -min(st.get('low', 0), st.get('high', 0), 0)), 14 if min(st.get('low', 0), st.get('high', 0)) >= -13 else 15))
                    fr = np.sort(rng.choice(np.arange(10, 900), size=n2, replace=False)).astype(float)
                    p.csm = csm(n2)
                    p.frequencies = fr
                elif r(2):
                    p.source.sample_freq = float(rng.choice([1, 2, 5])) * 128
                elif min(st.get('low', 0), st.get('high', 0)) >= -65:
                    p.block_size = int(rng.choice([128, 256]))
                F = refresh()
            elif op == 'look':
                def f():
                    fr = p.freq_range
                    return {'il': int(p.ind_low), 'ih': NIL if p.ind_high is None else int(p.ind_high), 'ind': [int(k) for k in p.indices],
                            'fr': [ints(fr[0], 10), NIL if fr[1] is None else ints(fr[1], 10)], 'freqs': freqs()}
                emit(f, op='look', il=0, ih=0, ind=[], fr=[], freqs=[])
            elif op == 'syn':
                fq, num = frequency(), band()
                emit(lambda: {'out': ints(bf.synthetic(fq / 10., arg(num)).ravel(), scale)}, op='syn', f=fq, num=num, out=[], warn=0)
            elif op.startswith('int'):
                sec = [ac.CircSector(x=0, y=0, r=.6), ac.RectSector(x_min=-1, x_max=0, y_min=-.5, y_max=0), [-1., -.5, 0., .5], [.5, 0., .3]][r(4)]
                G = grid.pos
                inside = (np.hypot(G[0], G[1]) < .6, (G[0] <= 0) & (G[1] <= 0), (G[0] <= 0), np.hypot(G[0] - .5, G[1]) <= .3)[
                    0 if isinstance(sec, ac.CircSector) else 1 if isinstance(sec, ac.RectSector) else 2 if len(sec) == 4 else 3]
                pts = [int(k) + 1 for k in np.where(inside)[0]]
                if op == 'intall':
                    emit(lambda: {'out': ints(bf.integrate(sec), scale)}, op='intall', points=pts, out=[])
                elif op == 'intrange':
                    a = frequency()
                    b = a + int(r(0, 500))

                    def f():
                        fr, v = bf.integrate(sec, (a / 10., b / 10.))
                        return {'f': ints(fr, 10), 'out': ints(v, scale)}
                    emit(f, op='intrange', points=pts, lo=a, hi=b, f=[], out=[])
                else:
                    num = [int(rng.choice([1, 3, 12]))]
                    fl = [frequency() for _ in range(int(r(1, 4)))]
                    emit(lambda: {'out': ints(bf.integrate(sec, [v / 10. for v in fl], num[0]), scale)}, op='intbands', points=pts, f=fl, num=num, out=[])
            elif op == 'ev':
                fq, num = int(min(frequency(), F[-1])), [int(rng.choice([0, 1, 3, 24]))]
                V = ints(p.eva[:], scale)
                keep = [e for e in ev if e['op'] == 'lines'][-1]
                ev.append({'op': 'lines', 'v': V, 'x': ''})
                emit(lambda: {'out': ints(p.synthetic_ev(fq / 10., num[0]), scale)}, op='ev', f=fq, num=num, out=[])
                ev.append(keep)
            elif op == 'many':
                num = [int(rng.choice([0, 1, 2, 3, 6]))]
                fl = [frequency() for _ in range(int(r(1, 4)))]
                data = np.array([e for e in ev if e['op'] == 'lines'][-1]['v']) / scale
                one = len(fl) == 1 and r(2)
                emit(lambda: {'out': ints(helpers.synthetic(data, np.array(F) / 10., fl[0] / 10. if one else [v / 10. for v in fl], num[0]), scale)},
                     op='many', f=fl, num=num, out=[], warn=0)
            elif op == 'bar' and len(F) > 3 and F[-1] > 3 * F[1] and F[-1] > 600 and F[1] > 2:
                num = [int(rng.choice([1, 3]))]
                data = np.array([e for e in ev if e['op'] == 'lines'][-1]['v'])[:, 0] / scale

                def f():
                    with contextlib.redirect_stdout(io.StringIO()):
                        fl, pl, fc = helpers.barspectrum(data, np.array(F) / 10., num[0], bar=False)
                        _, pb, _ = helpers.barspectrum(data, np.array(F) / 10., num[0], bar=True)
                    return {'f': ints(fc, 10), 'out': ints(pl, scale), 'twice': ints(pb, scale)}
                emit(f, op='bar', num=num, f=[], out=[], twice=[])
            if ev[-1]['x']:
                break
        return {'key': kind, 'desc': f'{kind} {[e["op"] for e in ev]}', 'init': init, 'ev': ev}
    N = 3 if q else 20
    for _ in range(60 * N):
        traces.append(history('import', 14))
    for _ in range(14 * N):
        traces.append(history('spectra', 12))
    # a grid that belongs to the result
    for _ in range(4 * N):
        n = int(rng.randint(1, 4))
        a = rng.normal(size=(n, 4, 3)) + 1j * rng.normal(size=(n, 4, 3))
        fr = np.sort(rng.choice(np.arange(100, 900), size=n, replace=False)).astype(float)
        p = ac.PowerSpectraImport(csm=a @ a.conj().transpose(0, 2, 1), frequencies=fr)
        o = ac.BeamformerGridlessOrth(freq_data=p, steer=steer, n=2, bounds=[(-1, 1), (-1, 1), (.5, 1.5)], eva_list=np.array([2, 3]), cached=False,
                                      shgo={'n': 32, 'iters': 1})
        rad = float(rng.choice([.4, .8, 3.]))
        sec = ac.CircSector(x=.1, y=.1, r=rad, default_nearest=False)
        e = {'op': 'intall', 'points': [], 'out': [], 'x': ''}
        lines = {'op': 'lines', 'v': [], 'x': ''}
        try:
            if rng.randint(2):      # before anything else was asked for
                e['out'] = ints(o.integrate(sec), 1e3)
                res = o.result[:]
            else:
                res = o.result[:]
                e['out'] = ints(o.integrate(sec), 1e3)
            pos = np.array(o.pos)
            e['points'] = [int(k) + 1 for k in np.where(np.hypot(pos[0] - .1, pos[1] - .1) < rad)[0]]
            lines['v'] = ints(res, 1e3)
        except Exception as x:  # noqa: BLE001
            e['x'] = repr(x)[:120]
        traces.append({'key': 'adaptive', 'desc': f'BeamformerGridlessOrth {fr.tolist()} radius {rad}', 'init': dict(il=0, ih=NIL, lo=0, hi=0, byindex=True),
                       'ev': [{'op': 'freqs', 'f': ints(fr, 10), 'x': ''}, lines, e]})
    for t in traces[:: max(1, len(traces) // 7)]:
        ctx.sample({'case': t['key'], 'ops': [e['op'] for e in t['ev']], 'last': str(t['ev'][-1])[:150]})
    bad = ctx.check_traces('BandsTrace', traces)
    ctx.report_bad(bad, lambda t, e, c: f"{t['key']}.{t['ev'][e - 1]['op']}|{c}")
    ctx.extra['operations'] = {o: sum(e['op'] == o for t in traces for e in t['ev']) for o in sorted({e['op'] for t in traces for e in t['ev']})}
    ctx.assumptions = ['frequencies in tenths of Hz up to 32 kHz', 'lines of the map are those of a fresh object (their values: C17)',
                       'negative indices within the number of lines']

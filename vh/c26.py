"""C26: angle and speed from trigger signals, and rings of microphones that turn virtually."""
import warnings
import numpy as np
from vh import common, zoo


def ints(a, s=1.):
    return np.clip(np.nan_to_num(np.rint(np.asarray(a, float) * s), nan=-2e9), -2e9, 2e9).astype(np.int64).tolist()


def run(ctx):
    common.assert_repo()
    zoo.build()
    ac = zoo.ac
    warnings.simplefilter('ignore')
    q = common.quick()
    rng = np.random.RandomState(common.SEED + 260)
    ctx.tlc('RotationMC', 'SPECIFICATION Spec\nINVARIANTS Regular Followed Whole Between\nCONSTANTS MaxK = %d MaxP = %d Revs = %d Vals = {%s}\n'
            % ((4, 3, 3, '0, 1, 5') if q else (6, 4, 4, '0, 1, 5, 7')))
    traces = []

    def case(key, desc, init, body):
        ev = []

        def emit(op, fn=None, **e):
            e.update(op=op, x='')
            try:
                e.update((fn() if fn else None) or {})
            except Exception as x:  # noqa: BLE001
                e['x'] = repr(x)[:120]
            ev.append(e)
        body(emit)
        traces.append({'key': key, 'desc': desc, 'init': init, 'ev': ev})

    def ring(angles):
        a = np.asarray(angles, float)
        return ac.MicGeom(pos_total=np.array([2 * np.cos(a), 2 * np.sin(a), 0 * a]))

    def read(o, num):
        return np.concatenate([b.copy() for b in o.result(num)])
    N = 1 if q else 10
    for _ in range(40 * N):
        fs, K, P, D = int(rng.choice([100, 1000, 1024])), int(rng.randint(3, 30)), int(rng.randint(1, 5)), int(rng.choice([1, -1]))
        A = int(rng.randint(1, K))
        n = A + K * int(rng.randint(9, 14)) + int(rng.randint(1, K + 1))
        S = int(rng.randint(0, P * K))
        st = dict(P=P, K=K, A=A, D=D, S=S)
        pulses = np.zeros((n, 1))
        pulses[A::K] = 5
        if K > 8 and rng.rand() < .5:   # some noise below the threshold
            pulses[pulses == 0] = rng.uniform(-1, 1, size=int((pulses == 0).sum()))
        mics = int(rng.randint(3, 7))

        def body(emit):
            nonlocal st
            t = ac.Trigger(source=ac.TimeSamples(data=pulses, sample_freq=float(fs)), threshold=2.)
            x = rng.randint(-50, 51, size=(n, mics))
            src = ac.TimeSamples(data=x * 1., sample_freq=float(fs))
            o = ac.AngleTracker(trigger=t, source=src)
            for _k in range(3):
                unit = 2 * np.pi / (st['P'] * K)
                o.trait_set(trigger_per_revo=st['P'], rot_direction=st['D'], start_angle=st['S'] * unit)
                emit('set', s=dict(st))
                for w in rng.permutation(['angle', 'rpm', 'ring']).tolist():
                    if w == 'angle':
                        emit('angle', lambda: {'n': n, 'out': ints(np.array(o.angle) / unit, 1e3)})
                    elif w == 'rpm':
                        emit('rpm', lambda: {'n': n, 'fs': fs, 'out': ints(o.rpm, 1e3), 'avg': ints([o.average_rpm], 1e3)[0]})
                    else:
                        def turn():
                            m = st['P'] * K
                            at = sorted(rng.randint(0, m * mics, size=rng.randint(1, 5)).tolist())
                            if rng.rand() < .5:
                                at = at[::-1]
                            phi0 = float(rng.choice([0, .1, -2., 3.]))
                            order = rng.permutation(mics)
                            place = phi0 + 2 * np.pi * np.arange(mics) / mics
                            r = ac.SpatialInterpolatorRotation(source=ac.TimeSamples(data=x[:, order] * 1., sample_freq=float(fs)), mics=ring(place[order]),
                                                               mics_virtual=ring([phi0 + 2 * np.pi * a / (m * mics) for a in at]),
                                                               angle_source=o, method='linear', array_dimension='ring')
                            return {'at': at, 'm': m, 'wheel': True, 'turn': 0, 'rows': x.tolist(), 'out': ints(read(r, int(rng.choice([7, 50, 1000]))), 1e3)}
                        emit('ring', turn)
                st = dict(st, P=int(rng.randint(1, 5)), D=int(rng.choice([1, -1])))
                st['S'] = int(rng.randint(0, st['P'] * K))
        case('wheel', f'{P} signals per revolution every {K} samples from {A}, direction {D}, {n} samples at {fs}', dict(st), body)
    for _ in range(60 * N):
        mics, m, turn = int(rng.randint(3, 8)), int(rng.randint(1, 9)), int(rng.randint(-6, 7))
        n, fs = int(rng.randint(1, 40)), float(rng.choice([100, 1024]))

        def body(emit):
            x = rng.randint(-50, 51, size=(n, mics))
            for _k in range(2):
                def go():
                    at = rng.randint(0, m * mics, size=rng.randint(1, 6)).tolist()
                    phi0 = float(rng.choice([0, .1, -2., 3.]))
                    order = rng.permutation(mics)
                    place = phi0 + 2 * np.pi * np.arange(mics) / mics
                    kw = dict(source=ac.TimeSamples(data=x[:, order] * 1., sample_freq=fs), mics=ring(place[order]),
                              mics_virtual=ring([phi0 + 2 * np.pi * a / (m * mics) for a in at]), method='linear', array_dimension='ring')
                    r = ac.SpatialInterpolatorConstantRotation(rotational_speed=turn * fs / (m * mics), **kw)
                    if r.num_channels != len(at):
                        raise RuntimeError(f'{r.num_channels} channels')
                    return {'at': at, 'm': m, 'wheel': False, 'turn': turn, 'rows': x.tolist(), 'out': ints(read(r, int(rng.choice([1, 3, 8, 64]))), 1e3)}
                emit('ring', go)
        case('constant', f'{mics} microphones, {turn}/{m} of their distance per sample, {n} samples', dict(P=1, K=1, A=0, D=1, S=0), body)
    for _ in range(20 * N):
        # varying speed: at each signal the angle is that of the signal, in between it follows
        fs, K, P, D, m = int(rng.choice([100, 1000, 1024])), int(rng.randint(20, 60)), int(rng.randint(1, 5)), int(rng.choice([1, -1])), int(rng.randint(6, 20))
        smooth = bool(rng.rand() < .6)
        per = K * (1 + rng.uniform(-.3, .3) * np.linspace(0, 1, m)) if smooth else K * rng.uniform(1, 1.25, size=m)
        pk = np.rint(rng.randint(0, K) + np.concatenate([[0], np.cumsum(per)])).astype(int)
        n = int(pk[-1] + rng.randint(1, K // 2))
        S = int(rng.randint(0, 1000 * P))

        def body(emit):
            x = np.zeros((n, 1))
            x[pk] = 5
            o = ac.AngleTracker(trigger=ac.Trigger(source=ac.TimeSamples(data=x, sample_freq=float(fs)), threshold=2.),
                                source=ac.TimeSamples(data=x, sample_freq=float(fs)), trigger_per_revo=P, rot_direction=D, start_angle=S * 2 * np.pi / P / 1000)
            emit('uneven', lambda: {'n': n, 'fs': fs, 'S': S, 'pk': pk.tolist(), 'smooth': smooth, 'out': ints(np.array(o.angle) * P / 2 / np.pi, 1e3), 'rpm': ints(o.rpm)})
        case('uneven', f'{P} signals per revolution at {pk.tolist()}, direction {D}, {n} samples at {fs}', dict(P=P, K=K, A=0, D=D, S=0), body)
    kinds = [('ring', m) for m in ('linear', 'spline', 'sinc', 'rbf-cubic')] + [('1D', m) for m in ('linear', 'spline', 'sinc', 'rbf-cubic')] + \
        [('2D', m) for m in ('linear', 'spline', 'sinc', 'rbf-cubic', 'rbf-multiquadric', 'IDW')] + \
        [('3D', m) for m in ('linear', 'sinc', 'rbf-cubic', 'rbf-multiquadric')]
    for rep in range(3 * N):
        for dim, method in kinds:
            # any kind of interpolation gives the values of the microphones where they are: turning by whole
            # distances of microphones exchanges the channels of a ring
            flat = dim in ('ring', '1D')
            mics, turn, n = int(rng.randint(4, 8)), int(rng.randint(-3, 4)), int(rng.randint(2, 9))
            radii = [2.] if flat else [1., 2., 3.5]
            heights = [0.] if flat else [0., 0., 0.] if dim == '2D' else [0., .7, .2]
            q3 = np.linalg.qr(rng.normal(size=(3, 3)))[0] if rng.rand() < .5 else np.identity(3)
            phi0 = float(rng.uniform(.1, .2))
            place = phi0 + 2 * np.pi * np.arange(mics) / mics
            uneven = 0. * place
            if dim == '3D':   # a mesh of evenly placed points is degenerate: use whole revolutions
                uneven, turn = rng.uniform(-.2, .2, size=mics), mics * int(rng.randint(-1, 2))
            pos = np.concatenate([np.array([(r + u) * np.cos(place), (r + u) * np.sin(place), z + v]) for r, z in zip(radii, heights)
                                  for u, v in [(rng.permutation(uneven), rng.permutation(uneven))]], 1)
            order = rng.permutation(pos.shape[1])
            mid = 0 if flat else mics

            def body(emit):
                o = None
                for _k in range(2):
                    x = rng.randint(-50, 51, size=(n, pos.shape[1]))
                    at = rng.randint(0, mics, size=rng.randint(1, 6)).tolist()

                    def go():
                        kw = dict(source=ac.TimeSamples(data=x[:, order] * 1., sample_freq=100.), mics=ac.MicGeom(pos_total=(q3.T @ pos)[:, order]), Q=q3,
                                  mics_virtual=ac.MicGeom(pos_total=(q3.T @ pos)[:, [mid + a for a in at]]), rotational_speed=turn * 100. / mics)
                        nonlocal o
                        if o is None:
                            o = ac.SpatialInterpolatorConstantRotation(method=method, array_dimension=dim, **kw)
                        else:
                            o.trait_set(**kw)
                        return {'at': at, 'm': 1, 'wheel': False, 'turn': turn, 'rows': x[:, mid:mid + mics].tolist(),
                                'out': ints(read(o, int(rng.choice([1, 3, 8]))), 1e3)}
                    emit('ring', go)
            case(f'whole.{dim}.{method}', f'{dim} {method}: {mics} microphones on each of {len(radii)} rings, turning by {turn} microphones per sample, {n} samples',
                 dict(P=1, K=1, A=0, D=1, S=0), body)
    for t in traces[:: max(1, len(traces) // 7)]:
        ctx.sample({'case': t['desc'], 'last': str(t['ev'][-1])[:150]})
    bad = ctx.check_traces('RotationTrace', traces)
    ctx.report_bad(bad, lambda t, e, c: f"{t['key']}.{t['ev'][e - 1]['op']}|{c}")
    ctx.extra['operations'] = {o: sum(e['op'] == o for t in traces for e in t['ev']) for o in sorted({e['op'] for t in traces for e in t['ev']})}
    ctx.assumptions = ['angles and speeds between the signals of a wheel with varying speed: within the interval and 1/8', 'between microphones: rings with linear interpolation only; other arrays and kinds of interpolation at the places of the microphones']

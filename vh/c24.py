"""C24: flow fields and sound in them."""
import numpy as np
from vh import common, zoo, forks

FRAMES = [((1, 0, 0), (0, 1, 0), 1), ((0, 0, 1), (1, 0, 0), 1), ((2, 1, 2), (1, 2, -2), 3), ((0, 3, 4), (5, 0, 0), 5), ((2, -3, 6), (3, 6, 2), 7), ((-1, 2, 2), (2, -1, 2), 3)]


def ints(a, s=1.):
    return np.clip(np.nan_to_num(np.rint(np.asarray(a, float) * s), nan=-5e8), -5e8, 5e8).astype(np.int64).tolist()


def run(ctx):
    common.assert_repo()
    zoo.build()
    ac = zoo.ac
    q = common.quick()
    rng = np.random.RandomState(common.SEED + 240)
    ctx.tlc('FlowsMC', 'SPECIFICATION Spec\nINVARIANTS Rotation Rest Axis Wind\nCONSTANTS Mach = {%s} Omega = {%s} Places = {%s}\n'
            % (('0, 200', '0, 300', '0, 400, 900') if q else ('0, 100, 300', '0, 100, 500', '0, 300, 400, 900')))
    traces = []

    def events():
        ev = []

        def emit(op, fn, **e):
            e.update(op=op, x='')
            try:
                e.update(fn() or {})
            except Exception as x:  # noqa: BLE001
                e['x'] = repr(x)[:150]
            ev.append(e)
        return ev, emit

    def frame():
        f, p, n = FRAMES[rng.randint(len(FRAMES))]
        return np.array(f, float) * rng.choice([1, 2.5]), np.array(p, float) * rng.choice([1, .5]), np.array(f), n

    def jet(kind):
        """a jet, points at growing distances from its axis, and whether the first is in the core"""
        v0, org = float(rng.choice([1, 17, 60])), rng.randint(-20, 21, size=3) / 10.
        if kind == 'open':
            D = float(rng.choice([.1, .2, 1.]))
            ff = ac.OpenJet(v0=v0, D=D, origin=org, l=float(rng.choice([6.2, 12.4])))
            d, n = np.array([1, 0, 0]), 1
            side = np.array([0., *rng.normal(size=2)])
        else:
            D = float(rng.choice([.1, .2, 1.]))
            f, p, d, n = frame()
            ff = ac.SlotJet(v0=v0, B=D, origin=org, flow=f, plane=p, l=float(rng.choice([5.2, 10.4])))
            side = np.cross(d, p) * rng.choice([-1, 1])
        side = side / np.linalg.norm(side)
        ax = d / n
        extra = np.zeros(3) if kind == 'open' else p * rng.uniform(-1, 1)
        return ff, v0, D, org, ax, side, d, n, extra
    N = 1 if q else 15
    for _ in range(60 * N):
        ev, emit = events()
        kind = str(rng.choice(['open', 'slot', 'rotating']))
        if kind == 'rotating':
            w, v0, o, p = int(rng.randint(-50, 51)), int(rng.randint(-30, 31)), rng.randint(-9, 10, size=3), rng.randint(-9, 10, size=3)
            ff = ac.RotatingFlow(rps=w / (2 * np.pi), v0=float(v0), origin=o * 1.)
            pts = [p + o * 1.]
            emit('spin', lambda: {'v': ints(ff.v(p + o * 1.)[0]), 'w': w, 'v0': v0, 'p': p.tolist()})
            h = 1e-3
        else:
            ff, v0, D, org, ax, side, d, n, extra = jet(kind)
            x = D * rng.choice([.5, 1., 2., 20.])
            r = np.array([0, .05, .2, .35, .45, .55, .7, 1.]) * (D + x)
            if x > 10 * D:
                r = np.append(r, 2 * (D + x))

            def go():
                vs = [np.array(ff.v(org + ax * x + side * k + extra)[0]) for k in r]
                u = [float(v @ ax) for v in vs]
                return {'u': ints(u, 1e4), 'v0': ints([v0], 1e4)[0], 'vs': ints(vs, 1e4), 'core': bool(x <= 2 * D), 'dir': d.tolist(), 'len': n}
            emit('jet', go)

            def mouth():
                def u(x, y):
                    return ints(np.array(ff.v(org + ax * x * D + side * y * D + extra)[0]) @ ax, 1e4)
                return {'v0': ints([v0], 1e4)[0], 'inner': [u(.1, y) for y in (0, .2, -.3, .4, -.4)], 'outer': [u(.1, y) for y in (.65, -.65, 1, -2)],
                        'axis': [u(x, 0) for x in (.01, .9 * ff.l, 1.2 * ff.l, 20, 50, 200, 1000)], 'left': [u(5, y) for y in (.2, .7, 1)], 'right': [u(5, -y) for y in (.2, .7, 1)],
                        'wide': [u(x, 1) for x in (.1, 1, 3, 6)]}
            emit('mouth', mouth)
            other = np.cross(ax, side)
            pts = [org + ax * x * rng.uniform(.5, 1.5) + side * k + other * .3 * D * (rng.rand() + .1) for k in r[1:7]]
            h = 2e-4 * D
        for z in pts:
            def deriv():
                v, dv = ff.v(z)
                E = np.eye(3) * h
                s = 1e3 / h
                return {'dv': ints(np.asarray(dv) * 2 * h, s), 'ahead': ints([ff.v(z + k)[0] - v for k in E], s), 'back': ints([ff.v(z - k)[0] - v for k in E], s)}
            emit('field', deriv)
        traces.append({'key': kind, 'desc': f'{kind} flow {[(k, np.asarray(v).tolist()) for k, v in ff.trait_get("v0", "origin").items()]}', 'ev': ev})
    # rays
    c = 343.
    kinds = ['rest', 'axial', 'open', 'slot', 'slot', 'rotating', 'rotating', 'rotating'] * (1 if q else 12)

    def ray(i):
        nonlocal rng
        rng = np.random.RandomState(common.SEED * 100 + i)
        kind = kinds[i]
        ev, emit = events()
        x0, y0 = rng.randint(-3, 4, size=2) / 10.
        grid = ac.RectGrid(x_min=x0 - .5, x_max=x0 + .5, y_min=y0 - .5, y_max=y0 + .5, z=float(rng.choice([1., -.8])), increment=.25)
        m = np.vstack([rng.randint(-50, 51, size=(2, 2)) / 100., np.zeros(2)])
        f = {'m': [0, 0, 0], 'w': 0, 'o': [0, 0, 0]}
        M = int(rng.choice([-150, 100, 200]))
        cc = float(rng.choice([343., 300.]))
        if kind == 'rest':
            ff = ac.RotatingFlow()
        elif kind == 'axial':
            ff = ac.RotatingFlow(v0=M * cc / 1000.)
            f['m'] = [0, 0, M]
        elif kind == 'open':
            ff = ac.OpenJet(v0=M * cc / 1000., D=1e3, l=1e6, origin=np.array([-5., 3., 2.]))
            f['m'] = [M, 0, 0]
        elif kind == 'slot':
            a, p, d, n = frame()
            ff = ac.SlotJet(v0=M * cc / 1000., B=1e3, l=1e6, origin=np.array([-5., -5., -5.]) * d, flow=a, plane=p)
            f['m'] = ints(M * d / n)
        else:
            w = int(rng.choice([-300, -200, 200, 300]))     # thousandths per metre
            o = rng.randint(-2, 3, size=3) / 10.
            o[2] = 0
            ff = ac.RotatingFlow(rps=w / 1e3 * cc / (2 * np.pi), v0=(M if rng.randint(2) else 0) * cc / 1000., origin=o)
            f.update(w=w, m=[0, 0, int(round(ff.v0 * 1000 / cc))], o=ints(o, 1e3))
        e = ac.GeneralFlowEnvironment(ff=ff, N=300, c=cc, Om=float(rng.choice([5., 6.])))
        g = grid.pos
        # the rays are followed a bit further than the grid: at the edge of their region they are sparse
        e.roi, tol = (g - g.mean(1)[:, None]) * 1.6 + g.mean(1)[:, None], 40

        def dist():
            r = e._r(g, m)
            return {'r': ints(r, 1e3)}
        emit('ray', dist, f=f, g=ints(g.T, 1e3), p=ints(m.T, 1e3), tol=tol)
        # by the steering vector, in another order, each microphone alone
        s = ac.SteeringVector(grid=grid, mics=ac.MicGeom(pos_total=np.ascontiguousarray(m[:, ::-1])), env=e)
        emit('ray', lambda: {'r': ints(np.asarray(s.rm), 1e3)}, f=f, g=ints(g.T, 1e3), p=ints(m[:, ::-1].T, 1e3), tol=tol)
        emit('same', lambda: {'want': ints(e._r(g, m)[:, 0], 1e3), 'got': ints(ac.GeneralFlowEnvironment(ff=ff, N=300, c=cc, Om=e.Om, roi=e.roi)._r(g, m[:, :1]), 1e3)})
        env = [ac.GeneralFlowEnvironment(ff=ff, N=100, c=cc, roi=r) for r in (None, g)]
        emit('same', lambda: {'want': ints(env[0]._r(g, m), 1e3), 'got': ints(env[1]._r(g, m), 1e3)})
        if not q or kind in ('axial', 'rotating'):
            # the flow turns round
            def turned():
                ff.v0, ff.rps = -ff.v0, -ff.rps
                return dist()
            if kind in ('axial', 'rotating'):
                emit('ray', turned, f={'m': [-x for x in f['m']], 'w': -f['w'], 'o': f['o']}, g=ints(g.T, 1e3), p=ints(m.T, 1e3), tol=tol)
        return {'key': 'ray.' + kind, 'desc': f'{kind} {f} c={cc} microphones {m.tolist()} from ({x0}, {y0})', 'ev': ev}
    traces += forks.pmap(ray, range(len(kinds)))
    for t in traces[:: max(1, len(traces) // 7)]:
        ctx.sample({'case': t['desc'], 'last': str(t['ev'][-1])[:150]})
    bad = ctx.check_traces('FlowsTrace', traces)
    ctx.report_bad(bad, lambda t, e, c: f"{t['key']}.{t['ev'][e - 1]['op']}|{c}")
    ctx.extra['operations'] = {o: sum(e['op'] == o for t in traces for e in t['ev']) for o in sorted({e['op'] for t in traces for e in t['ev']})}
    ctx.assumptions = ['rays in uniform and rigidly turning air (closed forms); rays in sheared jets are not examined', 'distances to 1.25 percent (300 rays); the region of the rays is larger than the grid', 'jets downstream of their exit']

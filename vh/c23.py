"""C23: trajectories and arrays."""
import numpy as np
from vh import common, zoo


def ints(a, s=1.):
    return np.clip(np.rint(np.asarray(a, float) * s), -2e9, 2e9).astype(np.int64).tolist()


def run(ctx):
    common.assert_repo()
    zoo.build()
    ac = zoo.ac
    q = common.quick()
    rng = np.random.RandomState(common.SEED + 230)
    ctx.tlc('PathsMC', 'SPECIFICATION Spec\nINVARIANTS Cubic Way Faster Inside\nCONSTANTS C = {%s} Kmax = %d Coord = {%s}\n'
            % (('1, 3', 6, '0, 1, 3') if q else ('1, 2, 3, 7', 16, '0, 1, 2, 5')))
    traces = []

    def events():
        ev = []

        def emit(op, fn, **e):
            e.update(op=op, x='')
            try:
                e.update(fn() or {})
            except Exception as x:  # noqa: BLE001
                e['x'] = repr(x)[:150]
            ev.append(e)
        return ev, emit

    def poly(c, k):
        t = k / 4.
        return tuple(float(v[0] + v[1] * t + v[2] * t * t + v[3] * t ** 3) for v in c)
    N = 2 if q else 20
    for _ in range(60 * N):
        ev, emit = events()
        st = {}

        def new():
            n = int(rng.choice([2, 3, 4, 5, 9]))
            ks = rng.choice(np.arange(-12, 13), size=n, replace=False)
            c = rng.randint(-4, 5, size=(3, 4))
            c[:, min(4, n):] = 0
            st.update(c=c.tolist(), ks=[int(k) for k in ks])
        new()
        style = rng.randint(2)
        tr = ac.Trajectory(points={k / 4.: poly(st['c'], k) for k in st['ks']})
        init = dict(st)
        for _ in range(int(rng.randint(2, 8))):
            op = rng.choice(['loc', 'loc', 'interval', 'walk', 'walk', 'set'])
            lo, hi = min(st['ks']), max(st['ks'])
            deg = min(3, len(st['ks']) - 1)
            der = int(rng.randint(0, min(deg, 2) + 1))
            if op == 'loc':
                ks = [int(k) for k in rng.randint(lo, hi + 1, size=rng.randint(1, 5))]
                if rng.randint(2):
                    emit('loc', lambda: {'out': ints(np.array(tr.location(np.array(ks) / 4., der=der)).T, 640)}, k=ks, der=der)
                else:
                    emit('loc', lambda: {'out': [ints(tr.location(ks[0] / 4., der), 640)]}, k=ks[:1], der=der)
            elif op == 'interval':
                emit('interval', lambda: {'out': ints(np.array(tr.interval), 4)})
            elif op == 'walk':
                n = int(rng.randint(1, 4))
                a = int(rng.randint(lo, hi + 1))
                b = int(rng.randint(a, hi + 1))
                if rng.randint(3) == 0 and lo <= 0 <= hi:       # to or from zero
                    a, b = (0, b if b > 0 else hi) if rng.randint(2) else (min(a, 0), 0)
                a = min(a, hi - 1)
                b = max(b, a + 1)
                step = int(rng.randint(1, 6))
                args = {1: (step / 4.,), 2: (a / 4., None, step / 4.), 3: (a / 4., b / 4., step / 4.)}[n]
                emit('walk', lambda: {'out': [ints(p, 640) for p in tr.traj(*args, der=der)]}, n=n, a=a, b=b, step=step, der=der)
            else:
                z = rng.randint(4)

                def change():
                    if z == 0:      # another path
                        new()
                        tr.points = {k / 4.: poly(st['c'], k) for k in st['ks']}
                    elif z == 1 and len(st['ks']) > 4:   # one point less
                        k = st['ks'].pop(int(rng.randint(len(st['ks']))))
                        del tr.points[k / 4.]
                    elif z == 2 and len(st['ks']) >= 4:   # one point more, outside
                        k = int(rng.choice([hi + 1 + rng.randint(3), lo - 1]))
                        st['ks'] = [*st['ks'], k]
                        tr.points[k / 4.] = poly(st['c'], k)
                    else:               # a shift
                        for v in st['c']:
                            v[0] += 3
                        for k in st['ks']:
                            tr.points[k / 4.] = poly(st['c'], k)
                    return {'s': {'c': [list(v) for v in st['c']], 'ks': list(st['ks'])}}
                st.update(c=[list(v) for v in st['c']], ks=list(st['ks']))
                emit('set', change)
        traces.append({'key': 'trajectory', 'desc': f'path {init} {[(e["op"]) for e in ev]}', 'init': init, 'ev': ev})
    for _ in range(15 * N):
        ev, emit = events()
        n = int(rng.randint(2, 12))
        t = np.cumsum(rng.randint(1, 5, size=n)) * .5
        p = rng.randint(-20, 21, size=(n, 3)).astype(float)
        tr = ac.Trajectory(points={float(a): tuple(b) for a, b in zip(t[::-1], p[::-1])})

        def free():
            h = 1e-4
            tt = rng.uniform(t[0] + h, t[-1] - h, size=5)
            a, b, v = (np.array(tr.location(x, d)).T for x, d in ((tt - h, 0), (tt + h, 0), (tt, 1)))
            return {'out': ints(np.array(tr.location(t)).T, 1e4), 'pts': ints(p, 1e4), 'back': ints(a, 1e7), 'ahead': ints(b, 1e7), 'vel': ints(v * 2 * h, 1e7)}
        emit('free', free)
        traces.append({'key': 'free', 'desc': f'path through {p.tolist()} at {t.tolist()}', 'init': {}, 'ev': ev})
    for _ in range(30 * N):
        ev, emit = events()
        st = {}

        def newp():
            n = int(rng.randint(2, 8))
            p = rng.randint(-30, 31, size=(n, 3))
            p[0, 0] = p[0, 0] or 5
            st.update(pos=p.tolist(), inv=[])
            return np.ascontiguousarray(p.T * 1.)
        m = ac.MicGeom(pos_total=newp())
        init = {'pos': st['pos'], 'inv': []}
        for _ in range(int(rng.randint(2, 7))):
            if rng.randint(2):
                emit('array', lambda: {'num': int(m.num_mics), 'pos': ints(m.pos.T), 'center': ints(m.center, 1e3), 'aperture2': ints([m.aperture ** 2], 100)[0]})
            else:
                def change():
                    z = rng.randint(4)
                    n = len(st['pos'])
                    if z == 0:
                        m.invalid_channels = []
                        m.pos_total = newp()
                    elif z == 1 and len(st['inv']) < n - 2:
                        k = int(rng.choice([i for i in range(1, n) if i + 1 not in st['inv']]))
                        m.invalid_channels.append(k)
                        st['inv'] = [*st['inv'], k + 1]
                    elif z == 2 and st['inv']:
                        m.invalid_channels.remove(st['inv'][0] - 1)
                        st['inv'] = st['inv'][1:]
                    else:
                        v = [int(k) for k in rng.permutation(np.arange(1, n))[:rng.randint(0, n - 1)]]
                        m.invalid_channels = v
                        st['inv'] = [k + 1 for k in v]
                    return {'s': {'pos': st['pos'], 'inv': list(st['inv'])}}
                emit('set', change)
        traces.append({'key': 'array', 'desc': f'array {init["pos"]} {[e["op"] for e in ev]}', 'init': init, 'ev': ev})
    for t in traces[:: max(1, len(traces) // 7)]:
        ctx.sample({'case': t['desc'], 'last': str(t['ev'][-1])[:150]})
    bad = ctx.check_traces('PathsTrace', traces)
    ctx.report_bad(bad, lambda t, e, c: f"{t['key']}.{t['ev'][e - 1]['op']}|{c}")
    ctx.extra['operations'] = {o: sum(e['op'] == o for t in traces for e in t['ev']) for o in sorted({e['op'] for t in traces for e in t['ev']})}
    ctx.assumptions = ['paths of at most third order between few points', 'derivatives up to the second']

"""C16: grids and sectors."""
import itertools
import numpy as np
from vh import common, zoo


def rint(a, scale):
    a = np.asarray(a, dtype=float) / scale
    r = np.rint(a)
    return np.where(np.abs(a - r) < 1e-6, r, -77777).astype(int)


def flat(shape, ix):
    return int(np.ravel_multi_index(tuple(ix), tuple(shape)))


def expand(idx, shape):
    """what an index of a map selects, as list of multi-indices"""
    a = np.arange(int(np.prod(shape))).reshape(shape)[idx]
    return [list(map(int, np.unravel_index(int(v), shape))) for v in np.asarray(a).ravel()]


def star(rng, n, m):
    """a simple polygon: corners sorted by their angle"""
    while True:
        p = rng.randint(-m, m + 1, size=(n, 2))
        c = p.mean(0) + np.array([.01, .023])
        a = np.arctan2(p[:, 1] - c[1], p[:, 0] - c[0])
        o = np.argsort(a)
        da = np.diff(np.concatenate([a[o], [a[o][0] + 2 * np.pi]]))
        if len({tuple(v) for v in p}) == n and (da > .05).all() and (da < np.pi - .05).all():
            p = p[o]
            if rng.randint(2):
                p = p[::-1]
            return [int(v) for v in np.roll(p, rng.randint(n), axis=0).ravel()]


def run(ctx):
    common.assert_repo()
    zoo.build()
    ac = zoo.ac
    q = common.quick()
    rng = np.random.RandomState(common.SEED + 160)
    ri = lambda a, b: int(rng.randint(a, b + 1))  # noqa: E731
    ctx.tlc('RegionsMC', 'SPECIFICATION Spec\nINVARIANTS Agree SameRegion RectPoly Border Numbering\nCONSTANTS M = %d\n' % (4 if q else 8))
    traces = []

    def add(key, desc, f, **ev):
        ev.setdefault('x', '')
        try:
            with common.limit():
                ev.update(f())
        except Exception as e:  # noqa: BLE001
            ev['x'] = repr(e)[:120]
        traces.append({'key': key, 'desc': f'{key} {desc}', 'ev': [ev]})

    def axis(single=False):
        lo, inc = ri(-20, 10), ri(1, 5)
        n = 1 if single else ri(2, 6)
        return {'lo': lo, 'hi': lo + inc * (n - 1), 'inc': inc}

    def rectgrid(sc, d3=None, free=False):
        d3 = rng.randint(2) if d3 is None else d3
        inc = ri(1, 5)
        ax = []
        for k in range(3 if d3 else 2):
            a = axis(rng.rand() < .1)
            i = ri(1, 5) if d3 and free != 'same' else inc
            n = max(round((a['hi'] - a['lo']) / a['inc']), 0)
            a = {'lo': a['lo'], 'hi': a['lo'] + i * n + (ri(0, i - 1) if free is True and i > 1 and n else 0), 'inc': i}
            ax.append(a)
        z = ri(-5, 5)
        kw = dict(x_min=ax[0]['lo'] * sc, x_max=ax[0]['hi'] * sc, y_min=ax[1]['lo'] * sc, y_max=ax[1]['hi'] * sc)
        if d3:
            inc = np.array([a['inc'] * sc for a in ax])
            if len({a['inc'] for a in ax}) == 1 and rng.randint(2):
                inc = float(inc[0])
            g = ac.RectGrid3D(z_min=ax[2]['lo'] * sc, z_max=ax[2]['hi'] * sc, increment=inc, **kw)
        else:
            g = ac.RectGrid(z=z * sc, increment=ax[0]['inc'] * sc, **kw)
        return g, ax, z
    N = 2 if q else 10
    scales = (.125, .1, 1., .01)
    for _ in range(60 * N):
        for sc in scales:
            # --- rectangular grids
            g, ax, z = rectgrid(sc)
            qs, outs = [], []
            for _k in range(6):
                v = [ri(a['lo'], a['hi']) for a in ax]
                if not any(2 * ((w - a['lo']) % a['inc']) == a['inc'] for w, a in zip(v, ax)):
                    qs.append(v)
            for k in range(len(ax)):
                for dlt in (-1, 1):
                    v = [a['lo'] for a in ax]
                    v[k] = ax[k]['lo'] - 1 if dlt < 0 else ax[k]['hi'] + 1
                    outs.append(v)

            def inside(v):
                # float noise at the ends of the grid
                lo = [g.x_min, g.y_min] + ([g.z_min] if len(ax) == 3 else [])
                hi = [g.x_max, g.y_max] + ([g.z_max] if len(ax) == 3 else [])
                return [min(max(w * sc, a), b) for w, a, b in zip(v, lo, hi)]

            def f():
                pos = g.pos

                def raises(v):
                    try:
                        g.index(*[w * sc for w in v])
                    except ValueError:
                        return True
                    return False
                return {'shape': [int(s) for s in g.shape], 'size': int(g.size), 'pos': rint(pos.T, sc).tolist(),
                        'ix': [[int(i) for i in g.index(*inside(v))] for v in qs],
                        'self': [flat(g.shape, g.index(*inside(p / sc))) + 1 for p in pos[:len(ax)].T], 'raised': [raises(v) for v in outs]}
            add(type(g).__name__, f'{ax} z={z} scale={sc}', f, op='rect', axes=ax, z=z, q=qs, out=outs)
            # spans and circles
            sp = [[ri(a['lo'], a['hi']) for a in ax] for _k in range(2)]
            if all(2 * ((w - a['lo']) % a['inc']) != a['inc'] for v in sp for w, a in zip(v, ax)):
                al = [list(v) for v in itertools.product(*[range(round((a['hi'] - a['lo']) / a['inc']) + 1) for a in ax])]

                def f():
                    return {'shape': list(map(int, g.shape)), 'idx': expand(g.indices(*inside(sp[0]), *inside(sp[1])), g.shape)}
                add(type(g).__name__ + '.indices', f'{ax} corners {sp} scale={sc}', f, op='span', axes=ax, lo=[min(a, b) for a, b in zip(*sp)],
                    hi=[max(a, b) for a, b in zip(*sp)], all=al)
            if sc == .125:
                g, ax, z = rectgrid(sc, d3=False)
                pts = rint(g.pos.T, sc).tolist()
                # circle and polygon with a centre on the grid
                c = [ri(a['lo'], a['hi']) for a in ax]
                r = ri(0, 12)
                for s, args in (({'kind': 'circ', 'x': c[0], 'y': c[1], 'r': r, 'border': True, 'nearest': True}, [c[0] * sc, c[1] * sc, r * sc]),
                                ({'kind': 'poly', 'e': (e := star(rng, ri(3, 7), 20)), 'border': True, 'nearest': True}, [v * sc for v in e])):
                    if s['kind'] == 'poly' and len(e) == 4:
                        continue

                    def f():
                        return {'idx': expand(g.indices(*args), g.shape)}
                    if s['kind'] == 'poly':
                        ctr = np.array(e).reshape(-1, 2).mean(0)
                        if not (ax[0]['lo'] <= ctr[0] <= ax[0]['hi'] and ax[1]['lo'] <= ctr[1] <= ax[1]['hi']):
                            continue
                    add('RectGrid.indices.' + s['kind'], f'{ax} {s}', f, op='indices', s=s, pts=pts, shape=list(map(int, g.shape)), idx=[])
            # extents that do not fit the increment
            g, ax, z = rectgrid(sc, free=True)

            def f():
                pos = g.pos
                c0, c1 = pos[:, 0], pos[:, -1]
                lo = [a['lo'] * sc for a in ax] + ([z * sc] if len(ax) == 2 else [])
                hi = [(a['hi'] if n > 1 else a['lo']) * sc for a, n in zip(ax, g.shape)] + ([z * sc] if len(ax) == 2 else [])
                return {'shape': list(map(int, g.shape)), 'size': int(g.size), 'npos': int(pos.shape[1]),
                        'self': [flat(g.shape, g.index(*inside(p / sc))) + 1 for p in pos[:len(ax)].T],
                        'corners': bool(np.allclose(c0, lo) and np.allclose(c1, hi))}
            add(type(g).__name__ + '.free', f'{ax} z={z} scale={sc}', f, op='free', axes=ax)
            # --- lines and merged grids
            loc, step, n = [ri(-9, 9) for _k in range(3)], ri(1, 4), ri(1, 6)
            dirn = [0, 0, 0]
            dirn[ri(0, 2)] = [-1, 1][ri(0, 1)]
            lg = ac.LineGrid(loc=tuple(v * sc for v in loc), direction=tuple(2.5 * v for v in dirn), length=step * (n - 1) * sc, num_points=n)

            def f():
                sh = lg.shape
                return {'shape': list(map(int, sh)) if isinstance(sh, tuple) else [-1], 'size': int(lg.size), 'pos': rint(lg.pos.T, sc).tolist()}
            add('LineGrid', f'{loc} {dirn} step={step} n={n} scale={sc}', f, op='line', loc=loc, dir=dirn, step=step, n=n)
            parts = []
            for _k in range(ri(1, 3)):
                k = ri(0, 2)
                if k == 0:
                    parts.append(rectgrid(sc, d3=False)[0])
                elif k == 1:
                    parts.append(ac.ImportGrid(pos=rng.randint(-3, 4, size=(3, ri(1, 8))) * sc))
                else:
                    l2 = [float(ri(-3, 3)) * sc for _j in range(3)]
                    parts.append(ac.LineGrid(loc=tuple(l2), direction=(0., 0., 1.), length=3 * sc, num_points=4))
            if rng.rand() < .3:
                parts.append(parts[0])
            if sc in (.125, 1.):      # equal points are equal numbers only when they are exact
                def f():
                    mg = ac.MergeGrid(grids=parts)
                    sh = mg.shape
                    names = [p.__class__.__name__ + p.digest for p in parts]
                    sub = [names.index(str(v)) + 1 if str(v) in names else 0 for v in np.asarray(mg.subgrids).ravel()]
                    return {'shape': list(map(int, sh)) if isinstance(sh, tuple) else [-1], 'size': int(mg.size), 'pos': rint(mg.pos.T, sc).tolist(), 'sub': sub}
                add('MergeGrid', f'{[type(p).__name__ for p in parts]} scale={sc}', f, op='merge', parts=[rint(p.pos.T, sc).tolist() for p in parts])
            # --- sectors
            g = [lambda: rectgrid(sc, d3=False)[0], lambda: rectgrid(sc, d3=True)[0], lambda: lg,
                 lambda: ac.ImportGrid(pos=rng.randint(-12, 13, size=(3, ri(1, 25))) * sc)][ri(0, 3)]()
            pts = rint(g.pos.T, sc)

            def sector(kind):
                s = {'kind': kind, 'border': bool(ri(0, 1)), 'nearest': bool(ri(0, 1))}
                kw = dict(include_border=s['border'], default_nearest=s['nearest'])
                # corners and centres in the neighbourhood of the points
                lo, hi = pts.min(0) - 3, pts.max(0) + 3
                pt = lambda k: ri(int(lo[k]), int(hi[k])) if rng.rand() < .6 else int(pts[ri(0, len(pts) - 1)][k])  # noqa: E731
                if kind in ('rect', 'box'):
                    s.update(x1=pt(0), x2=pt(0), y1=pt(1), y2=pt(1))
                    kw.update(x_min=s['x1'] * sc, x_max=s['x2'] * sc, y_min=s['y1'] * sc, y_max=s['y2'] * sc)
                    if kind == 'box':
                        s.update(z1=pt(2), z2=pt(2))
                        kw.update(z_min=s['z1'] * sc, z_max=s['z2'] * sc)
                        return s, ac.RectSector3D(**kw)
                    return s, ac.RectSector(**kw)
                if kind == 'circ':
                    s.update(x=pt(0), y=pt(1), r=ri(0, 9))
                    return s, ac.CircSector(x=s['x'] * sc, y=s['y'] * sc, r=s['r'] * sc, **kw)
                if kind == 'poly':
                    s['e'] = star(rng, ri(3, 8), 15)
                    return s, ac.PolySector(edges=[float(v * sc) for v in s['e']], **kw)
                if kind == 'hull':
                    while True:
                        e = [int(v) for v in rng.randint(-15, 16, size=2 * ri(3, 6))]
                        p = np.array(e).reshape(-1, 2)
                        if np.linalg.matrix_rank(p - p[0]) == 2 and len({tuple(v) for v in p}) == len(p):
                            break
                    s['e'] = e
                    return s, ac.ConvexSector(edges=[float(v * sc) for v in e], **kw)
                return s, ac.Sector()
            for kind in ('rect', 'box', 'circ', 'poly', 'hull', 'multi', 'all'):
                if kind == 'multi':
                    two = [sector(['rect', 'box', 'circ', 'poly', 'hull'][ri(0, 4)]) for _k in range(ri(1, 3))]
                    ss, so = [a for a, _b in two], ac.MultiSector(sectors=[b for _a, b in two])
                else:
                    a, so = sector(kind)
                    ss = [a]
                data = [ri(0, 9) for _k in pts]

                def f():
                    sel = np.asarray(so.contains(g.pos))
                    sub = g.subdomain(so)
                    shp = tuple(g.shape) if isinstance(g.shape, tuple) else (g.shape,)
                    if rng.randint(2):
                        tot = ac.integrate(np.array(data, float), g, so)
                    else:
                        tot = ac.integrate(np.array([[1.] * len(data), data]), g, so)
                        tot = tot[1] if len(data) > 1 or np.size(tot) > 1 else tot
                    return {'sel': [bool(v) for v in sel], 'sub': [list(map(int, v)) for v in zip(*sub)], 'shape': list(map(int, shp)),
                            'total': int(np.rint(tot))}
                add(type(so).__name__, f'{ss} on {type(g).__name__} {pts.tolist()[:40]} scale={sc}', f, op='sector', s=ss, pts=pts.tolist(), data=data)
    for t in traces[:: len(traces) // 7]:
        ctx.sample({'case': t['desc'][:200], 'out': str(t['ev'][0].get('pos', t['ev'][0].get('sel')))[:90]})
    ctx.report_bad(ctx.check_traces('RegionsTrace', traces))
    ctx.extra['kinds'] = sorted({t['key'] for t in traces})
    ctx.assumptions = ['coordinates are integer multiples of a scale (1/8, 1/10, 1, 1/100)', 'polygons do not intersect themselves',
                       'indices() with a circle or polygon: centre on the grid, exact coordinates']

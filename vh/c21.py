"""C21: metrics of maps against true sources."""
import numpy as np
from vh import common, zoo


def run(ctx):
    common.assert_repo()
    zoo.build()
    ac = zoo.ac
    from acoular.tools import MetricEvaluator
    q = common.quick()
    rng = np.random.RandomState(common.SEED + 210)
    ctx.tlc('MetricsMC', 'SPECIFICATION Spec\nINVARIANTS NoExcess Apart First\nCONSTANTS Size = %d Radii = {%s} NT = %d\n'
            % ((2, '1, 3', 2) if q else (2, '1, 2, 4', 3)))
    traces = []

    def ints(a):
        return np.clip(np.rint(np.asarray(a, float)), -2e9, 2e9).astype(np.int64).tolist()

    def grid():
        k = rng.randint(4)
        if k == 0:
            return ac.RectGrid(x_min=-4, x_max=float(rng.choice([0, 4])), y_min=-3, y_max=3, z=1, increment=float(rng.choice([1, 2]))), 'rect'
        if k == 1:
            return ac.RectGrid3D(x_min=-2, x_max=2, y_min=-2, y_max=2, z_min=0, z_max=2, increment=2), 'rect3d'
        if k == 2:
            return ac.LineGrid(loc=(-3., 1., 2.), direction=(1., 0., 0.), length=6., num_points=7), 'line'
        p = np.unique(rng.randint(-5, 6, size=(int(rng.randint(1, 25)), 3)), axis=0).T.astype(float)
        return ac.ImportGrid(pos=p[:, rng.permutation(p.shape[1])]), 'points'

    for _ in range(90 if q else 1500):
        ev = []
        nf = int(rng.randint(1, 4))
        g, name = grid()
        st = {}
        obj = {}

        def pick(what):
            if what == 'targets':
                n = int(rng.randint(1, 5))
                p = rng.randint(-6, 7, size=(n, 3)) if rng.randint(2) else np.c_[rng.randint(-6, 7, size=(n, 2)), np.ones(n, int)]
                st['targets'] = p.tolist()
                obj['tgrid'] = ac.ImportGrid(pos=p.T.astype(float))
                obj['true'] = rng.randint(1, 50, size=(nf, n)).astype(float)
            elif what == 'data':
                d = rng.randint(0, 100, size=(nf, g.size)) * (rng.rand(nf, g.size) < rng.choice([.3, 1]))
                d[:, rng.randint(g.size)] += 1
                obj['data'] = d.astype(float)
                st['data'] = d.tolist()
            elif what == 'sector':
                st.update(r=int(rng.randint(1, 6)), border=bool(rng.randint(2)), nearest=bool(rng.randint(2)))
                obj['sector'] = ac.CircSector(x=5, y=6, r=st['r'], include_border=st['border'], default_nearest=st['nearest'])
        st['points'] = ints(g.pos.T)
        st.update(adaptive=bool(rng.randint(2)), multi=bool(rng.randint(2)))
        for w in ('targets', 'data', 'sector'):
            pick(w)
        if rng.rand() < .15:        # the default
            obj['sector'] = None
            st.update(r=1, border=True, nearest=True)
        m = MetricEvaluator(data=obj['data'], target_data=obj['true'], grid=g, target_grid=obj['tgrid'],
                            adaptive_sector_size=st['adaptive'], multi_assignment=st['multi'])
        if obj['sector'] is not None:
            m.sector = obj['sector']
        init = dict(st)
        snap = {}

        def keep():
            snap.update(data=obj['data'].copy(), true=obj['true'].copy(), pos=obj['tgrid'].pos.copy(),
                        sec=None if obj['sector'] is None else (obj['sector'].x, obj['sector'].y, obj['sector'].r))
        keep()
        for _ in range(int(rng.randint(3, 9))):
            op = rng.choice(['specific', 'specific', 'inverse', 'overall', 'radii', 'set', 'set', 'bad', 'user'])
            e = {'op': str(op), 'x': ''}
            try:
                if op == 'set':
                    w = rng.choice(['targets', 'data', 'sector', 'adaptive', 'multi'])
                    if w in ('adaptive', 'multi'):
                        st[w] = not st[w]
                        m.adaptive_sector_size, m.multi_assignment = st['adaptive'], st['multi']
                    else:
                        pick(w)
                        if w == 'targets':
                            m.target_grid, m.target_data = obj['tgrid'], obj['true']
                        elif w == 'data':
                            m.data = obj['data']
                        else:
                            m.sector = obj['sector']
                    keep()
                    e['m'] = dict(st)
                elif op == 'specific':
                    e['v'] = ints(100 * 10 ** (m.get_specific_level_error() / 10) * obj['true'])
                elif op == 'inverse':
                    e['v'] = ints(100 * 10 ** (m.get_inverse_level_error() / 10) * obj['data'].sum(1))
                elif op == 'overall':
                    e['v'] = ints(100 * 10 ** (m.get_overall_level_error() / 10) * obj['true'].sum(1))
                elif op == 'radii':
                    s = m.sectors
                    e.update(v=ints([100 * x.r ** 2 for x in s]), pos=[ints([x.x, x.y]) for x in s])
                elif op == 'bad':
                    k = rng.randint(3)
                    bad = MetricEvaluator(data=np.ones((nf + (k == 0), g.size + (k == 1))), target_data=np.ones((nf, m.target_grid.size + (k == 2))), grid=g,
                                          target_grid=m.target_grid, sector=ac.CircSector())
                    [bad.get_specific_level_error, bad.get_inverse_level_error, bad.get_overall_level_error][rng.randint(3)]()
                else:
                    sec = obj['sector']
                    e['same'] = bool(np.array_equal(snap['data'], obj['data']) and np.array_equal(snap['true'], obj['true']) and np.array_equal(snap['pos'], obj['tgrid'].pos)
                                     and (sec is None or (sec.x, sec.y, sec.r) == snap['sec']))
            except ValueError as x:
                e['x'] = 'ValueError' if op == 'bad' else repr(x)[:120]
            except Exception as x:  # noqa: BLE001
                e['x'] = repr(x)[:120]
            ev.append(e)
        traces.append({'key': name, 'desc': f'{name} of {g.size} points, {nf} frequencies, {[e["op"] for e in ev]} first {({k: init[k] for k in init if k not in ("points", "data")})}',
                       'init': init, 'ev': ev})
    for t in traces[:: max(1, len(traces) // 7)]:
        ctx.sample({'case': t['desc'], 'last': str(t['ev'][-1])[:150]})
    bad = ctx.check_traces('MetricsTrace', traces)
    ctx.report_bad(bad, lambda t, e, c: f"{t['key']}.{t['ev'][e - 1]['op']}|{c}")
    ctx.extra['operations'] = {o: sum(e['op'] == o for t in traces for e in t['ev']) for o in sorted({e['op'] for t in traces for e in t['ev']})}
    ctx.assumptions = ['integer positions and powers', 'positive powers of the targets', 'up to four targets']

"""C15: delay and sum in the time domain."""
import numpy as np
from vh import common, zoo
from vh.c14 import CT, TICKS, Geometry, ints, make_signals

TYPES = ['classic', 'inverse', 'true level', 'true location']


def read(o, num):
    with common.limit():
        b = [np.array(x) for x in o.result(num)]
    return np.concatenate(b) if b else np.zeros((0, o.num_channels))


DIRS = [[1, 0, 0], [1, 0, 0], [3, 4, 0], [1, 2, 2]]


class Setup:
    def __init__(self, rng, moving, smooth=False):
        r = rng.randint
        self.fs = [1., 8., 1000.][r(3)]
        self.nm, self.ng = int(r(2, 5)), 1 if smooth else int(r(1, 4))
        self.moving = moving
        self.n = int(r(26, 40))
        while True:
            self.mics = r(-4000, 4000, size=(self.nm, 3))
            self.mics[:, 2] = r(-300, 300, size=self.nm)
            self.grid = r(-3000, 3000, size=(self.ng, 3))
            self.grid[:, 2] = r(500, 4000, size=self.ng)
            self.path = [[0, 0, 0]] * 3
            self.dir, self.rvec, self.ld, self.ly = [1, 0, 0], [0, 0, 0], 1, 1
            if moving:
                self.path = [[int(r(-2000, 2000)), int(r(-4, 5)), 0], [int(r(-2000, 2000)), int(r(-4, 5)), 0], [int(r(0, 1500)), 0, 0]]
                if r(3) == 0:
                    self.path[int(r(2))][2] = int(r(-3, 4))
                if r(2):
                    dr = np.array(DIRS[r(len(DIRS))])
                    dr = dr[rng.permutation(3)] * rng.choice([-1, 1], size=3)
                    sp = int(r(1, 7)) if abs(dr).sum() == 1 else int(r(1, 3)) if abs(dr).sum() == 5 else 1
                    if dr[2] == 0 or abs(dr).sum() == 5:
                        self.dir = dr.tolist()
                        self.ld = int(np.sqrt((dr ** 2).sum()))
                        for k in range(3):
                            self.path[k][1:] = [sp * self.dir[k], 0]
                        while True:
                            self.rvec = r(-4, 5, size=3).tolist()
                            if r(3) == 0:
                                self.rvec = [[0, 0, 1], [0, 0, -1]][r(2)]
                            l2 = (np.cross(self.rvec, dr) ** 2).sum()
                            self.ly = int(np.sqrt(l2))
                            if 0 < self.ly and self.ly ** 2 == l2:
                                break
                if smooth:
                    self.path = [[x, int(np.sign(v)) * min(abs(v), 2), 0] for x, v, a in self.path]
                    if self.rvec != [0, 0, 0]:
                        for k in range(3):
                            self.path[k][1] = self.dir[k] if self.ld < 5 else 0
                        if self.ld == 5:
                            self.rvec = [0, 0, 0]
            f = np.array([self.focus(k) for k in range(self.n + 1)])     # n, g, 3
            d = np.sqrt(((f[:, :, None, :] - self.mics[None, None]) ** 2).sum(-1))
            self.dmax = d.max() / CT / TICKS
            if d.min() > (2000 if smooth else 400) and d.max() < 14000 and np.sqrt((f ** 2).sum(-1)).min() > 400:
                break
        self.reft = int(r(3))
        self.ref = [0., float(r(1000, 3000)) / 1000, None][self.reft]
        self.refpos = [0., 0., 0.]
        if self.reft == 2:
            self.refpos = [float(v) / 1000 for v in r(-500, 500, size=3)]

    def at(self, tau):
        return np.array([x + v * tau + a * tau * tau / 4096 for x, v, a in self.path], float)

    def focus(self, k):
        g = self.grid.astype(float)
        if self.rvec != [0, 0, 0]:
            ex = np.array(self.dir) / self.ld
            ey = np.cross(self.rvec, ex) * self.ld / self.ly
            ez = np.cross(ex, ey)
            g = g @ np.array([ex, ey, ez])
        return g + self.at(64 * k)

    def steer(self, typ):
        ac = zoo.ac
        ref = {0: 0., 1: self.ref, 2: self.refpos}[self.reft]
        return ac.SteeringVector(grid=ac.ImportGrid(pos=self.grid.T / 1000.), mics=ac.MicGeom(pos_total=self.mics.T / 1000.),
                                 env=ac.Environment(c=CT * TICKS / 1000 * self.fs), steer_type=typ, ref=ref)

    def trajectory(self):
        ts = np.linspace(-4 * TICKS, (self.n + 60) * TICKS, 9)
        return zoo.ac.Trajectory(points={float(t / TICKS / self.fs): tuple(self.at(t) / 1000) for t in ts})

    def src(self, x):
        return zoo.ac.TimeSamples(data=np.ascontiguousarray(x, dtype=float), sample_freq=self.fs)


def run(ctx):
    common.assert_repo()
    zoo.build()
    ac = zoo.ac
    q = common.quick()
    rng = np.random.RandomState(common.SEED + 150)
    for mics, ds, n, vals in (((2, '0, 1, 3', 5, '0, 1, 2'), (3, '0, 2', 4, '0, 1')) if q else
                              ((2, '0, 1, 2, 3, 4', 6, '0, 1, 2'), (3, '0, 1, 3', 6, '0, 1'))):
        ctx.tlc('FocusTimesMC', 'SPECIFICATION Spec\nINVARIANTS OutputIsSource Causal\nCONSTANTS MaxN = %d Delays = {%s} Values = {%s} Mics = %d\n'
                % (n, ds, vals, mics))
    traces = []

    def add(key, desc, f, **ev):
        ev.setdefault('x', '')
        try:
            ev.update(f())
        except Exception as e:  # noqa: BLE001
            ev['x'] = repr(e)[:120]
        traces.append({'key': key, 'desc': f'{key} {desc}', 'ev': [ev]})

    N = 2 if q else 16
    for _ in range(24 * N):
        for moving in (False, True):
            for typ in TYPES:
                s = Setup(rng, moving)
                num = int(rng.choice([1, 3, 8, 16, 64]))
                conv = bool(moving and rng.rand() < .4)
                prec = int(rng.choice([64, 64, 32]))
                weights = 'power' if (not moving and s.nm > 2 and rng.rand() < .15) else 'none'
                kw = dict(weights=weights)
                lin, sqc = (ac.BeamformerTimeTraj, ac.BeamformerTimeSqTraj) if moving else (ac.BeamformerTime, ac.BeamformerTimeSq)
                if moving:
                    kw.update(trajectory=s.trajectory(), rvec=np.array(s.rvec, float), conv_amp=conv, precision=prec)
                st = s.steer(typ)
                x = rng.randint(-9, 10, size=(s.n, s.nm)).astype(float)
                d = (f'{typ} ref={s.ref if s.reft < 2 else s.refpos} mics={s.mics.tolist()} grid={s.grid.tolist()} path={s.path} rvec={s.rvec} dir={s.dir} '
                     f'conv_amp={conv} fs={s.fs} block={num} weights={weights}')
                hold = {}

                def base():
                    if 'delay' in hold:
                        return
                    A, D = [], []
                    for m in range(s.nm):
                        one = np.zeros((s.n, s.nm))
                        one[:, m] = 1
                        ramp = np.zeros((s.n, s.nm))
                        ramp[:, m] = np.arange(s.n)
                        y1, y2 = (read(lin(source=s.src(z), steer=st, **kw), num) for z in (one, ramp))
                        with np.errstate(all='ignore'):
                            A.append(y1)
                            D.append(y2 / y1 - np.arange(len(y1))[:, None])
                    hold['amp'] = ints(np.stack(A, -1), 1e4)
                    hold['delay'] = ints(np.clip(np.nan_to_num(np.stack(D, -1), nan=-1.), -1, 40), 1e3)
                    r0 = np.array([np.sqrt(((s.focus(k) / 1000. - np.array(s.refpos)) ** 2).sum(-1)) for k in range(len(A[0]))])
                    hold['r0'] = ints(r0 * s.fs / (CT * TICKS / 1000 * s.fs), 1e3)

                qq = {'mics': s.mics.tolist(), 'grid': s.grid.tolist(), 'path': s.path, 'dir': s.dir, 'ld': s.ld, 'ly': s.ly, 'rvec': s.rvec, 'conv': conv,
                      'type': typ if weights == 'none' else 'any', 'ref': int(round(s.ref * 1e6 / (CT * TICKS))) if s.reft == 1 else 0,
                      'refpos': [int(round(v * 1000)) for v in s.refpos], 'x': x.astype(int).T.tolist(), 'sq': False, 'rdiag': False, 'slack': 3}
                def f():
                    base()
                    return {'out': ints(read(lin(source=s.src(x), steer=st, **kw), num), 1e4), **hold}
                add(lin.__name__, d, f, op='focus', q=qq, out=[], delay=[], amp=[], r0=[])
                rd = bool(rng.randint(2))

                def f():
                    base()
                    return {'out': ints(read(sqc(source=s.src(x), steer=st, r_diag=rd, **kw), num), 160000.), **hold}
                add(sqc.__name__, d + f' r_diag={rd}', f, op='focus', q=dict(qq, sq=True, rdiag=rd), out=[], delay=[], amp=[], r0=[])
                # one iteration of CLEAN, all samples in one block
                if rng.rand() < .5:
                    cl = ac.BeamformerCleantTraj if moving else ac.BeamformerCleant
                    damp = int(rng.choice([30, 60, 100]))
                    kc = dict(kw)
                    if moving:
                        kc['precision'] = 64
                    big = s.n
                    gi = int(rng.randint(s.ng))

                    def f():
                        a = read(lin(source=s.src(x), steer=st, **kc), big)
                        b = read(cl(source=s.src(x), steer=st, damp=damp / 100., n_iter=1, **kc), big)
                        return {'phi': ints(a, 1e3), 'gamma': ints(b, 1e3)}
                    add(cl.__name__, d + f' damp={damp / 100}', f, op='clean1', damp=damp, phi=[], gamma=[], must=s.ng == 1 and typ == 'inverse' and damp < 100 and False)
    # --- further iterations of CLEAN
    for _ in range(12 * N):
        for moving in (False, True):
            s = Setup(rng, moving, smooth=True)
            typ = TYPES[rng.choice([1, 2])]
            conv = bool(moving and rng.rand() < .4)
            kw = dict(trajectory=s.trajectory(), rvec=np.array(s.rvec, float), conv_amp=conv, precision=64) if moving else {}
            lin, cl = (ac.BeamformerTimeTraj, ac.BeamformerCleantTraj) if moving else (ac.BeamformerTime, ac.BeamformerCleant)
            st = s.steer(typ)
            damp, k = int(rng.choice([30, 50, 60, 80])), int(rng.randint(2, 5))
            s.n += 30
            x = np.tile(rng.randint(5, 20, size=s.nm), (s.n, 1))

            def f():
                if moving:
                    kw['trajectory'] = s.trajectory()
                a = read(lin(source=s.src(x), steer=st, **kw), s.n)
                b = read(cl(source=s.src(x), steer=st, damp=damp / 100., n_iter=k, **kw), s.n)
                return {'phi': ints(a, 1e3), 'gamma': ints(b, 1e3)}
            add(cl.__name__ + '.iterations', f'{typ} ref={s.ref if s.reft < 2 else s.refpos} mics={s.mics.tolist()} grid={s.grid.tolist()} path={s.path} rvec={s.rvec} '
                f'conv_amp={conv} fs={s.fs} damp={damp / 100} n_iter={k} constant signals', f, op='cleank', damp=damp, k=k, skip=15, rel=500, phi=[], gamma=[])
    # --- focusing undoes the propagation: integer delays along a line
    Steps = make_signals()
    for _ in range(20 * N):
        fs = [1., 8., 1000.][rng.randint(3)]
        env = ac.Environment(c=CT * TICKS / 1000 * fs)
        step = CT * TICKS
        nm = int(rng.randint(2, 6))
        ax = int(rng.randint(3))
        n = int(rng.randint(14, 24))
        pos = np.zeros((nm, 3))
        k = rng.choice([v for v in range(-6, 7) if v != 0], size=nm, replace=False)
        base = rng.randint(-2000, 2000, size=3).astype(float)
        pos += base
        pos[:, ax] += k * step
        x = rng.randint(-9, 10, size=n).astype(float)
        num = int(rng.choice([1, 3, 8, 64]))
        others = rng.randint(-3000, 3000, size=(2, 3)).astype(float)
        g = np.vstack([others[:1], base, others[1:]])
        moving = bool(rng.randint(2))
        for typ in ('inverse', 'true level'):
            def f():
                mics = ac.MicGeom(pos_total=pos.T / 1000.)
                src = ac.PointSource(signal=Steps(sample_freq=fs, num_samples=n, kind=3., x=x), loc=tuple(base / 1000.), mics=mics, env=env, up=1,
                                     prepadding='zeros', start=.01 / fs)
                st = ac.SteeringVector(grid=ac.ImportGrid(pos=g.T / 1000.), mics=mics, env=env, steer_type=typ, ref=1.)
                if moving:
                    tr = ac.Trajectory(points={float(tt / fs): (0., 0., 0.) for tt in range(-2, n + 30, 4)})
                    o = ac.BeamformerTimeTraj(source=src, steer=st, trajectory=tr)
                else:
                    o = ac.BeamformerTime(source=src, steer=st)
                y = read(o, num)[:, 1]
                return {'out': ints(y, 1e3), 's': x.astype(int).tolist(), 'least': int(n - np.sqrt(((g[:, None] - pos[None]) ** 2).sum(-1)).max() / step - 3)}
            add('undo', f'{typ} moving={moving} mics at {k.tolist()} samples fs={fs} block={num}', f, op='undo', out=[], s=[], least=0)
    for t in traces[:: len(traces) // 7]:
        ctx.sample({'case': t['desc'][:200], 'out': str(t['ev'][0].get('out', t['ev'][0].get('gamma')))[:90]})
    ctx.report_bad(ctx.check_traces('FocusTimesTrace', traces))
    ctx.extra['kinds'] = sorted({t['key'] for t in traces})
    ctx.assumptions = ['environment without flow', 'delays decided to 3 mm, amplitudes to about 2 %, sums to about 2 % of the loudest possible sum']

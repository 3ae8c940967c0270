"""C14: sources: every microphone hears the front that just arrived, sources superpose."""
import contextlib, io
import numpy as np
from vh import common, zoo

SILENT, NOTHEARD = -99999, -99998
CT = 16            # mm per tick
TICKS = 64


def make_signals():
    ac = zoo.ac
    from traits.api import CArray, Float, Property, cached_property

    class Steps(ac.SignalGenerator):
        """signal whose upsampled version is prescribed (kind: 1 constant, 2 ramp, 3 given samples)"""
        kind = Float(1.)
        rms = Float(1.)
        x = CArray()
        digest = Property(depends_on=['kind', 'rms', 'x', 'num_samples', 'sample_freq'])

        @cached_property
        def _get_digest(self):
            return 's' + str(abs(hash((self.kind, self.rms, self.num_samples, self.sample_freq, self.x.tobytes()))))

        def usignal(self, factor):
            if self.kind == 1:
                return self.rms * np.ones(self.num_samples * factor)
            if self.kind == 2:
                return self.rms * (1. + np.arange(self.num_samples * factor) / factor)
            return self.rms * np.repeat(self.x, factor)

        def signal(self):
            return self.usignal(1)
    return Steps


class Geometry:
    def __init__(self, rng, up, moving, along=False):
        r = rng.randint
        self.up = up
        self.fs = [1., 8., 1000.][r(3)]
        self.n = int(r(14, 26))
        while True:
            if moving:
                vmax = 9
                self.path = [[int(r(-4000, 4000)), int(r(-vmax, vmax + 1)), 0], [int(r(-3000, 3000)), int(r(-3, 4)), 0],
                             [int(r(1000, 4000)), 0, 0]]
                if r(3) == 0:
                    self.path[int(r(2))][2] = int(r(-4, 5))
            else:
                self.path = [[int(r(-4000, 4000)), 0, 0], [int(r(-4000, 4000)), 0, 0], [int(r(-2000, 3000)), 0, 0]]
            self.mics = [[int(r(-5000, 5000)), int(r(-5000, 5000)), int(r(-600, 600))] for _ in range(int(r(1, 4)))]
            if along:      # the movement is that of the distance to the first microphone, but not to the others
                v = int(rng.choice([-1, 1])) * int(r(4, 7))
                self.path = [[int(r(-1000, 1000)), v, 0], [int(r(-1000, 1000)), 0, 0], [int(r(1000, 4000)), 0, 0]]
                self.mics = [[int(rng.choice([-1, 1])) * int(r(12000, 15000)), self.path[1][0], self.path[2][0]]]
                self.mics += [[int(r(-4000, 4000)), int(rng.choice([-1, 1])) * int(r(4000, 14000)), int(r(-600, 600))] for _ in range(int(r(1, 3)))]
            self.start = int(r(-6, 12)) * 16
            self.start_t = int(r(-6, 8)) * 16
            if self.ok(moving, 28 if along else 60):
                break

    def at(self, tau):
        return np.array([x + v * tau + a * tau * tau / 4096 for x, v, a in self.path], float)

    def ok(self, moving, back=60):
        """slower than sound, not through a microphone, and never an index before the signal's length"""
        ts = np.arange(-back * TICKS, (self.n + 8) * TICKS, 16)
        p = np.array([self.at(t) for t in ts])
        sp = np.abs(np.diff(p, axis=0)).max(0)
        if np.sqrt((sp ** 2).sum()) > .8 * CT * 16:
            return False
        d = np.array([np.sqrt(((p - np.array(m)) ** 2).sum(1)) for m in self.mics])
        if d.min() < 300 or d.max() > 24000:
            return False
        # positions keep away from the origin (the reference of convective amplification)
        if np.sqrt((p ** 2).sum(1)).min() < 50:
            return False
        # emission times at the first sample
        arr = ts[None, :] + d / CT
        first = np.array([ts[np.searchsorted(a, self.start)] for a in arr])
        if (first - self.start_t).min() < -(self.n - 2) * TICKS:
            return False
        if moving and first.min() < -(50 if back == 60 else 26) * TICKS:
            return False
        if not moving:      # no ties of the rounding
            x = (self.start - self.start_t - d[:, 0] / CT) * self.up / TICKS + .5
            if (np.abs(x - np.rint(x)) < .02).any():
                return False
        return True

    def kw(self):
        ac = zoo.ac
        return dict(mics=ac.MicGeom(pos_total=np.array(self.mics, float).T / 1000), up=self.up,
                    env=ac.Environment(c=CT * TICKS / 1000 * self.fs), start=self.start / TICKS / self.fs,
                    start_t=self.start_t / TICKS / self.fs)

    def trajectory(self, d=(0, 0, 0)):
        ac = zoo.ac
        ts = np.linspace(-60 * TICKS, (self.n + 8) * TICKS, 9)
        return ac.Trajectory(points={float(t / TICKS / self.fs): tuple(self.at(t) / 1000 + np.array(d) / 1000) for t in ts})

    def loc(self, d=(0, 0, 0)):
        return tuple((self.at(0) + np.array(d)) / 1000)

    def q(self, **k):
        r = {'path': self.path, 'mics': self.mics, 'start': self.start, 'start_t': self.start_t, 'up': self.up, 'n': self.n,
             'wrap': False, 'zeros': False, 'amp': True, 'd': 3}
        r.update(k)
        return r


def read(o, num):
    with common.limit():
        b = [np.array(x) for x in o.result(num)]
    return np.concatenate(b) if b else np.zeros((0, o.num_channels))


def decode(one, ramp, up, factor=1.):
    """cells [step, distance in mm] of what was recorded with a constant and with a rising signal"""
    cell = []
    if one.shape != ramp.shape:
        return [[[NOTHEARD, 0]]]
    for a, b in zip(one, ramp):
        row = []
        for x, y in zip(a, b):
            if x == 0 and y == 0:
                row.append([SILENT, 0])
                continue
            i = (y / x - 1) * up if x else np.nan
            if not np.isfinite(i) or abs(i - np.rint(i)) > 1e-6:
                row.append([NOTHEARD, 0])
                continue
            r = 1000. * factor / x
            row.append([int(np.rint(i)), int(np.clip(np.rint(r), -40000, 40000))])
        cell.append(row)
    return cell


def ints(a, s=1e6):
    return np.clip(np.rint(np.asarray(a) * s), -2e9, 2e9).astype(np.int64).tolist()


def run(ctx):
    common.assert_repo()
    zoo.build()
    ac = zoo.ac
    q = common.quick()
    Steps = make_signals()
    rng = np.random.RandomState(common.SEED + 140)
    cfg = ('SPECIFICATION Spec\nINVARIANTS InOrder ClosedForm Nothing Unique\nCONSTANTS MaxT = %d Vs = {%s} As = {0, %s} Xs = {%s} Ms = {0, 500}\n')
    # cfg files know no negative numbers: approaching sources come from beyond the microphone
    ctx.tlc('SourceTimesMC', cfg % ((120, '0, 3, 9', '40', '64, 800') if q else (200, '0, 1, 3, 6, 9, 11', '40, 20', '16, 64, 330, 800, 1600')))
    traces = []

    def add(key, desc, f, **ev):
        ev.setdefault('x', '')
        try:
            ev.update(f())
        except Exception as e:  # noqa: BLE001
            ev['x'] = repr(e)[:120]
        traces.append({'key': key, 'desc': f'{key} {desc}', 'ev': [ev]})

    def sig(g, kind, **k):
        return Steps(sample_freq=g.fs, num_samples=g.n, kind=kind, **k)
    N = 1 if q else 8
    # --- propagation
    for _ in range(60 * N):
        for up in (1, 2, 4, 16):
            num = int(rng.choice([1, 3, 7, 16, 64]))
            g = Geometry(rng, up, False)
            d = f'{g.q()} fs={g.fs} block={num}'
            for pre in ('loop', 'zeros'):
                if pre == 'zeros' and rng.rand() < .5:     # long silence, many blocks
                    g.start_t += int(rng.randint(0, g.n - 6)) * TICKS
                def f(pre=pre):
                    return {'cell': decode(*(read(ac.PointSource(signal=sig(g, k), loc=g.loc(), prepadding=pre, **g.kw()), num)
                                             for k in (1, 2)), up)}
                add('PointSource.' + pre, d, f, op='prop', q=g.q(wrap=True, zeros=pre == 'zeros', d=1), cell=[])
            g = Geometry(rng, up, True)
            d = f'{g.q()} fs={g.fs} block={num}'

            def f():
                return {'cell': decode(*(read(ac.MovingPointSource(signal=sig(g, k), trajectory=g.trajectory(), **g.kw()), num)
                                         for k in (1, 2)), up)}
            add('MovingPointSource', d, f, op='prop', q=g.q(d=4 + 90 // up), cell=[])
            if rng.rand() < .4:
                ga = Geometry(rng, up, True, along=True)
                d = f'{ga.q()} fs={ga.fs} block={num}'

                def f(ga=ga):
                    return {'cell': decode(*(read(ac.MovingPointSource(signal=sig(ga, k), trajectory=ga.trajectory(), **ga.kw()), num)
                                             for k in (1, 2)), up)}
                add('MovingPointSource', d, f, op='prop', q=ga.q(d=4 + 90 // up), cell=[])
            if rng.rand() < .3:
                g.mics = g.mics[:1]
                d = f'{g.q()} fs={g.fs} block={num}'
                dm = 2. ** rng.randint(-3, 1) * 1e5

                def f():
                    o = [read(ac.MovingPointSourceDipole(signal=sig(g, k), trajectory=g.trajectory(), direction=(0., dm, 0.), **g.kw()), num)
                         for k in (1, 2)]
                    return {'cell': decode(*o, up)}
                add('MovingPointSourceDipole', d, f, op='prop', q=g.q(amp=False), cell=[])

                def f():
                    return {'cell': decode(*(read(ac.MovingLineSource(signal=sig(g, k), trajectory=g.trajectory(), num_sources=1,
                                                                      source_strength=np.array([1.]), **g.kw()), num)
                                             for k in (1, 2)), up)}
                add('MovingLineSource', d, f, op='prop', q=g.q(d=4 + 90 // up), cell=[])
    # --- superposition
    for _ in range(30 * N):
        for up in (1, 2, 4):
            num = int(rng.choice([1, 3, 7, 16, 64]))
            g = Geometry(rng, up, False)
            while g.start > g.start_t:
                g = Geometry(rng, up, False)
            x = rng.randint(-9, 10, size=g.n).astype(float)
            s3 = sig(g, 3, x=x)
            d = f'{g.q()} fs={g.fs} block={num}'
            mono = lambda p, **k: read(ac.PointSource(signal=s3, loc=tuple(np.array(p) / 1000.), **{**g.kw(), **k}), num)  # noqa: E731
            # line
            ns = int(rng.randint(1, 4))
            step = int(rng.choice([100, 250, 400]))
            ax = int(rng.randint(3))
            sign = int(rng.choice([-1, 1]))
            dirn = [0, 0, 0]
            dirn[ax] = sign
            w = rng.randint(-3, 4, size=ns)
            base = [p[0] for p in g.path]
            places = [[b + k * step * e for b, e in zip(base, dirn)] for k in range(ns)]

            def f():
                o = ac.LineSource(signal=s3, loc=g.loc(), direction=tuple(2. * e for e in dirn), length=step * ns / 1000., num_sources=ns,
                                  source_strength=w.astype(float), **g.kw())
                return {'whole': ints(read(o, num)), 'terms': [ints(mono(p)) for p in places]}
            ok = all(Geometry_clear(g, p, up) for p in places)
            if ok:
                add('LineSource', d + f' {ns} sources along {dirn} strengths {w.tolist()}', f, op='sum', kind='line', parts=parts_line(base, dirn, step, ns), places=places,
                    w=w.tolist(), whole=[], terms=[], tol=10, rel=100000)
            # dipole: the two poles dist apart, normalised with the distance between them
            dm = float(rng.choice([.25, .5, 1.]))
            dist = CT * TICKS * dm           # mm
            h = int(dist / 2)
            places = [[b + s * h * e for b, e in zip(base, dirn)] for s in (1, -1)]

            def f():
                o = ac.PointSourceDipole(signal=s3, loc=g.loc(), direction=tuple(e * dm * 1e5 for e in dirn), **g.kw())
                rm = np.sqrt(((np.array(g.mics) - np.array(base)) ** 2).sum(1)) / 1000.
                return {'whole': ints(read(o, num) * (dist / 1000.) / rm), 'terms': [ints(mono(p)) for p in places]}
            if all(Geometry_clear(g, p, up) for p in places):
                add('PointSourceDipole', d + f' {dirn} * {dm}', f, op='sum', kind='dipole', parts=parts_line([b + h * e for b, e in zip(base, dirn)],
                    [-e for e in dirn], 2 * h, 2), places=places, w=[1, -1], whole=[], terms=[], tol=10, rel=100000)
            # spherical harmonics: the first one radiates like a monopole, the others add up
            lo = int(rng.randint(0, 3))
            k0 = (lo + 1) ** 2
            w2 = rng.randint(-3, 4, size=k0)
            har = lambda a: read(ac.SphericalHarmonicSource(signal=s3, loc=g.loc(), lOrder=lo, alpha=np.asarray(a, float), **g.kw()), num)  # noqa: E731
            turned = tuple(rng.normal(size=3))

            # (with the samples of pi / 30 samples later, K-C14-4)
            for name, late in (('first', np.pi / 30), ('time', 0.)):
                def f():
                    o = ac.SphericalHarmonicSource(signal=s3, loc=g.loc(), lOrder=lo, alpha=np.eye(k0)[0] * w2[0], direction=turned, **g.kw())
                    return {'whole': ints(read(o, num) * np.sqrt(4 * np.pi)), 'terms': [ints(mono(base, start=g.kw()['start'] + late / g.fs))]}
                add('SphericalHarmonicSource.' + name, d + f' order {lo} coefficient {w2[0]}', f, op='sum', kind='harmonic', parts=[], places=[], w=[int(w2[0])],
                    whole=[], terms=[], tol=10, rel=100000)

            def f():
                return {'whole': ints(har(w2)), 'terms': [ints(har(np.eye(k0)[j])) for j in range(k0)]}
            add('SphericalHarmonicSource', d + f' order {lo} coefficients {w2.tolist()}', f, op='sum', kind='harmonic', parts=[], places=[], w=w2.tolist(), whole=[], terms=[],
                tol=30, rel=100000)
            up = 16
            # a moving line: every part moves along, one sample early (K-C14)
            g = Geometry(rng, up, True)
            g.mics = g.mics[:1]
            x = rng.randint(-9, 10, size=g.n).astype(float)
            s4 = sig(g, 3, x=x)
            conv = bool(rng.randint(2))
            kw = g.kw()
            places = [[k * step * e for e in dirn] for k in range(ns)]

            def f():
                o = ac.MovingLineSource(signal=s4, trajectory=g.trajectory(), direction=tuple(2. * e for e in dirn), length=step * ns / 1000.,
                                        num_sources=ns, source_strength=w.astype(float), conv_amp=conv, **kw)
                kp = dict(kw)
                kp['start'] = kw['start'] + 1 / g.fs
                a = read(o, num)
                t = [read(ac.MovingPointSource(signal=s4, trajectory=g.trajectory(p), conv_amp=conv, **kp), num) for p in places]
                k = min(len(z) for z in [a] + t)
                return {'whole': ints(a[:k], 1e5), 'terms': [ints(z[:k], 1e5) for z in t]}
            add('MovingLineSource.parts', f'{g.q()} fs={g.fs} block={num} {ns} sources along {dirn} strengths {w.tolist()} conv_amp={conv}', f, op='sum', kind='line',
                parts=parts_line([0, 0, 0], dirn, step, ns), places=places, w=w.tolist(), whole=[], terms=[], tol=40, rel=100)
            if conv and rng.rand() < .3:       # further microphones
                kw2 = dict(kw, mics=ac.MicGeom(pos_total=np.array([[2.1, 1.9], [.5, -2.2], [.1, .3]])))

                def f():
                    o = ac.MovingLineSource(signal=sig(g, 1), trajectory=g.trajectory(), num_sources=1, source_strength=np.array([1.]), **kw2)
                    kp = dict(kw2)
                    kp['start'] = kw['start'] + 1 / g.fs
                    a, b = read(o, num), read(ac.MovingPointSource(signal=sig(g, 1), trajectory=g.trajectory(), **kp), num)
                    k = min(len(a), len(b))
                    return {'whole': ints(a[:k], 1e5), 'terms': [ints(b[:k], 1e5)]}
                add('MovingLineSource.two microphones', f'{g.q()} fs={g.fs} block={num}', f, op='sum', kind='line', parts=[], places=[], w=[1], whole=[], terms=[],
                    tol=40, rel=100)
            # convective amplification: (1 - Mr)^2, Mr from the origin
            if rng.rand() < .5:
                def f():
                    a, b = (read(ac.MovingPointSource(signal=sig(g, 1), trajectory=g.trajectory(), conv_amp=cv, **kw), num) for cv in (False, True))
                    r = 1 / a[:, 0]
                    te = (np.arange(len(a)) + g.start / TICKS) / g.fs - r / kw['env'].c
                    p = np.array([g.at(t * g.fs * TICKS) for t in te])
                    v = np.array([[vv + 2 * aa * t * g.fs * TICKS / 4096 for _, vv, aa in g.path] for t in te])
                    mr = (v * p).sum(1) / np.sqrt((p ** 2).sum(1)) / CT
                    return {'whole': ints(b, 1e5), 'terms': [ints(a / (1 - mr[:, None]) ** 2, 1e5)]}
                add('MovingPointSource.conv_amp', f'{g.q()} fs={g.fs} block={num}', f, op='sum', kind='conv', parts=[], places=[], w=[1],
                    whole=[], terms=[], tol=40, rel=50)
    for _ in range(20 * N):
        g = Geometry(rng, 1, False)
        num = int(rng.choice([1, 3, 7, 64]))
        mics = g.kw()['mics']
        seed = int(rng.randint(100))
        kind = ['WNoiseGenerator', 'PNoiseGenerator'][rng.randint(2)]
        given = bool(rng.randint(2))

        def f():
            G = getattr(ac, kind)
            seeds = [seed + 5 * k for k in range(len(g.mics))] if given else [seed + k for k in range(len(g.mics))]
            o = ac.UncorrelatedNoiseSource(signal=G(seed=seed, num_samples=g.n, sample_freq=g.fs, rms=.5), mics=mics,
                                           seed=np.array(seeds if given else [], dtype='uint32'))
            parts = [silent(G(seed=s, num_samples=g.n, sample_freq=g.fs, rms=.5).signal) for s in seeds]
            t = []
            for k, p in enumerate(parts):
                z = np.zeros((g.n, len(parts)))
                z[:, k] = p
                t.append(ints(z))
            return {'whole': ints(silent(lambda: read(o, num))), 'terms': t, 'w': [1] * len(parts)}
        add('UncorrelatedNoiseSource', f'{kind} seed={seed} given={given} block={num} n={g.n}', f, op='sum', kind='noise', parts=[], places=[], w=[], whole=[],
            terms=[], tol=2, rel=1000000)
    # --- distances in a uniform flow
    for _ in range(10 * N):
        for mach in (0, 7, 20, 45):
            k = 12
            s = rng.randint(-4000, 4000, size=(k, 3))
            m = rng.randint(-4000, 4000, size=(k, 3))
            ax = int(rng.randint(3))
            perm = [ax] + [a for a in range(3) if a != ax]
            neg = bool(rng.randint(2))
            scale = float(rng.choice([.5, 1., 3.]))

            def f():
                v = np.zeros(3)
                v[ax] = -scale if neg else scale
                e = ac.UniformFlowEnvironment(c=343., ma=mach / 64., fdv=v) if mach else ac.Environment(c=343.)
                r = np.asarray(e._r(s.T / 1000., m.T / 1000.))
                return {'r': ints([r[i, i] for i in range(k)], 1000.)}
            sg = np.array([-1 if neg else 1, 1, 1])
            add('UniformFlowEnvironment' if mach else 'Environment', f'M={mach}/64 axis {ax} {"-" if neg else "+"}', f, op='flow', mach=mach,
                s=(s[:, perm] * sg).tolist(), m=(m[:, perm] * sg).tolist(), r=[])
    for t in traces[:: len(traces) // 7]:
        ctx.sample({'case': t['desc'][:200], 'out': str(t['ev'][0].get('cell', t['ev'][0].get('whole')))[:90]})
    ctx.report_bad(ctx.check_traces('SourceTimesTrace', traces))
    ctx.extra['kinds'] = sorted({t['key'] for t in traces})
    ctx.assumptions = ['sources slower than sound, on paths of up to second order; environment without flow, except for the distances',
                       'signal long enough for the first index (shorter signals: K-C03-1)', 'emission times are decided to one tick (1/64 sample) or the next step']


def silent(f):
    with contextlib.redirect_stdout(io.StringIO()):
        return f()


def parts_line(base, dirn, step, ns):
    return [[base[0] + k * step * dirn[0], base[1] + k * step * dirn[1], base[2] + k * step * dirn[2]] for k in range(ns)]


def Geometry_clear(g, p, up):
    d = np.sqrt(((np.array(g.mics) - np.array(p)) ** 2).sum(1))
    x = (g.start - g.start_t - d / CT) * up / TICKS + .5
    return d.min() > 100 and (np.abs(x - np.rint(x)) > .02).all() and (g.start - g.start_t - d / CT).min() > -(g.n - 2) * TICKS

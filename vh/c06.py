"""C06: elementary operators compute their defined sequence (exact integer arithmetic in TLA+)."""
import os
import numpy as np
from vh import common, zoo

BAD = -987654321


def ints(a, k=1):
    a = np.asarray(a, dtype=float)
    if a.ndim == 2 and not isinstance(k, int):
        a = a * np.asarray(k)[:len(a), None] if len(np.asarray(k)) >= len(a) else a * np.nan
    else:
        a = a * k
    r = np.rint(a)
    ok = np.abs(a - r) <= 1e-6 * (1 + np.abs(a))
    return np.where(ok, r, BAD).astype(np.int64).tolist()


class Gen:
    def __init__(self, ctx, q):
        self.ctx, self.q, self.traces = ctx, q, []
        self.r = np.random.RandomState(common.SEED)

    def mat(self, n, c, lo=-9, hi=10):
        return self.r.randint(lo, hi, size=(n, c))

    def src(self, x, fs=48000.):
        return zoo.ac.TimeSamples(data=np.array(x, dtype=float), sample_freq=fs)

    def add(self, op, name, xs, make, num, scale=1, reads=1, **par):
        """make(): the object; its output is read `reads` times, the last output counts"""
        ev = {'op': op, 'xs': [np.asarray(x).tolist() for x in xs], 'x': '', 'out': []}
        ev.update(par)
        try:
            with common.limit():
                o = make()
                for _ in range(reads):
                    bl = [np.array(b) for b in o.result(num)]
            out = np.concatenate(bl) if bl else np.zeros((0, 1))
            ev['out'] = ints(out, scale)
        except Exception as e:  # noqa: BLE001
            ev['x'] = repr(e)[:100]
        self.traces.append({'key': name, 'desc': f'{name} shapes={[np.shape(x) for x in xs]} block={num} '
                            + str({k: v for k, v in par.items()})[:150], 'ev': [ev]})


def fir(base, sos):
    class F(base):
        def _get_sos(self):
            return np.array(sos, dtype=float)
    return F


def run(ctx):
    common.assert_repo()
    zoo.build()
    ac = zoo.ac
    q = common.quick()
    ctx.tlc('SampleOpsMC', f'SPECIFICATION Spec\nINVARIANT Laws\nCONSTANTS MaxRows = {2 if q else 3} Vals = {{0, 1, 2}}\n')
    g = Gen(ctx, q)
    r = g.r

    class TwoBanks(ac.tprocess.FilterBank):
        def _get_sos(self):
            return [np.array(b, dtype=float) for b in self.bands]

        def _get_bands(self):
            return BANKS

        def _get_num_bands(self):
            return len(BANKS)
    BANKS = [[[1, 2, 0, 1, 0, 0]], [[1, 0, -1, 1, -1, 0]]]
    shapes = [(1, 1), (2, 3), (5, 2), (6, 3), (7, 1), (8, 2), (11, 3), (12, 2)]
    if not q:
        shapes += [(n, c) for n in range(1, 24) for c in (1, 2, 3)]
    nums = (1, 2, 3, 4, 7, 64) if q else (1, 2, 3, 4, 5, 6, 7, 8, 12, 64)
    for n, c in shapes:
        for num in nums:
            x = g.mat(n, c)
            S = g.src
            g.add('power', 'TimePower', [x], lambda: ac.TimePower(source=S(x)), num)
            g.add('rev', 'TimeReverse', [x], lambda: ac.TimeReverse(source=S(x)), num)
            g.add('rev', 'TimeReverse.again', [x], lambda: ac.TimeReverse(source=S(x)), num, reads=2)
            g.add('cum', 'TimeCumAverage', [x], lambda: ac.TimeCumAverage(source=S(x)), num, scale=np.arange(1, n + 1))
            g.add('ident', 'TimeSamples', [x], lambda: S(x), num)
            g.add('ident', 'Cache', [x], lambda: ac.Cache(source=S(x)), num)
            g.add('ident', 'WriteWAV.result', [x], lambda: ac.WriteWAV(source=S(x)), num)
            g.add('ident', 'WriteH5.result', [x], lambda: ac.WriteH5(source=S(x), file=zoo.fresh('.h5')), num)
            g.add('ident', 'SamplesBuffer', [x], lambda: ac.process.SamplesBuffer(source=S(x), length=80), num)
            for k in (1, 2, 3, 5):
                g.add('avg', 'Average', [x], lambda k=k: ac.Average(source=S(x), num_per_average=k), num, scale=k, k=k)
            # mixers
            xs = [g.mat(n, c), g.mat(n, c)]
            g.add('mix', 'Mixer', [x] + xs, lambda: ac.Mixer(source=S(x), sources=[S(a) for a in xs]), num, w=[1, 1, 1])
            g.add('mix', 'Mixer.one', [x], lambda: ac.Mixer(source=S(x), sources=[]), num, w=[1])
            same = S(x)
            g.add('mix', 'Mixer.self', [x, x], lambda: ac.Mixer(source=same, sources=[same]), num, w=[1, 1])
            twin = S(xs[0])
            g.add('mix', 'Mixer.twice', [x, xs[0], xs[0]], lambda: ac.Mixer(source=S(x), sources=[twin, twin]), num, w=[1, 1, 1])
            g.add('mix', 'SourceMixer.twice', [xs[0], xs[0]], lambda: ac.SourceMixer(sources=[twin, twin],
                  weights=np.array([2., 3.])), num, w=[2, 3])
            for dn in (-1, 1, 3):
                if n + dn >= 1:
                    y = g.mat(n + dn, c)
                    g.add('mix', 'Mixer.lengths', [x, y], lambda y=y: ac.Mixer(source=S(x), sources=[S(y)]), num, w=[1, 1])
            w = r.randint(-3, 4, size=3)
            g.add('mix', 'SourceMixer', [x] + xs, lambda: ac.SourceMixer(sources=[S(a) for a in [x] + xs]), num, w=[1, 1, 1])
            g.add('mix', 'SourceMixer.weights', [x] + xs, lambda: ac.SourceMixer(sources=[S(a) for a in [x] + xs],
                  weights=np.array(w, float)), num, w=w.tolist())
            g.add('mix', 'SourceMixer.again', [x] + xs, lambda: ac.SourceMixer(sources=[S(a) for a in [x] + xs],
                  weights=np.array(w, float)), num, reads=2, w=w.tolist())
            # weights per channel
            wc = r.randint(-3, 4, size=c)
            g.add('chmix', 'ChannelMixer', [x], lambda: ac.ChannelMixer(source=S(x)), num, w=[1])
            g.add('chmix', 'ChannelMixer.weights', [x], lambda: ac.ChannelMixer(source=S(x), weights=wc.astype(float)), num,
                  w=wc.tolist())
            g.add('chmix', 'ChannelMixer.scalar', [x], lambda: ac.ChannelMixer(source=S(x), weights=np.array([3.])), num, w=[3])

            def cal(inv=None, extra=None):
                o = ac.Calib(source=S(x))
                o.data = np.array(wc if extra is None else extra, float)
                if inv is not None:
                    o.invalid_channels = inv
                return o
            g.add('scale', 'Calib', [x], cal, num, w=wc.tolist())
            full = np.insert(wc, min(1, c), 99)
            g.add('scale', 'Calib.invalid', [x], lambda: cal([min(1, c)], full), num, w=wc.tolist())
            # convolution
            for L in ((1, 2, 4, 9) if q else (1, 2, 3, 4, 7, 9, 16)):
                k1 = r.randint(-3, 4, size=(L, 1))
                k2 = r.randint(-3, 4, size=(L, c))
                g.add('conv', 'TimeConvolve', [x], lambda: ac.TimeConvolve(source=S(x), kernel=k1[:, 0].astype(float)), num,
                      ker=k1.tolist())
                g.add('conv', 'TimeConvolve.2d', [x], lambda: ac.TimeConvolve(source=S(x), kernel=k2.astype(float)), num,
                      ker=k2.tolist())
            # filters with integer coefficients
            for sos in ([[1, 2, -1, 1, 0, 0]], [[1, 0, 0, 1, -1, 0]], [[2, -1, 0, 1, 0, 0], [1, 0, 1, 1, 1, 0]]):
                g.add('sos', 'Filter', [x], lambda sos=sos: fir(ac.Filter, sos)(source=S(x)), num, sos=sos)
            g.add('bank', 'FilterBank', [x], lambda: TwoBanks(source=S(x)), num, banks=BANKS)
            # chains
            g.add('rev', 'chain.reverse(identity)', [x], lambda: ac.TimeReverse(source=ac.Cache(source=S(x))), num)
    # integration over sectors of a map: grid nx x ny, column = ix * ny + iy
    for n in (1, 4, 7):
        for nx, ny in ((2, 2), (3, 2), (2, 4)):
            x = g.mat(n, nx * ny, 1, 60)
            rg = ac.RectGrid(x_min=0, x_max=nx - 1, y_min=0, y_max=ny - 1, z=1, increment=1)
            secs = [(0, 0, nx - 2, 0), (1, 0, nx - 1, ny - 2), (1, 1, 1, 1)]
            gs = [[ix * ny + iy for ix in range(nx) for iy in range(ny) if s[0] <= ix <= s[2] and s[1] <= iy <= s[3]]
                  for s in secs]
            for num in (1, 2, 3, 8):
                g.add('groups', 'IntegratorSectorTime', [x], lambda: ac.IntegratorSectorTime(
                    source=g.src(x), grid=rg, sectors=secs), num, gs=gs)
                g.add('clip', 'IntegratorSectorTime.clip', [x], lambda: ac.IntegratorSectorTime(
                    source=g.src(x), grid=rg, sectors=secs, clip=-10 * np.log10(10 / 3.7)), num, gs=gs, cnum=37, cden=100)
    # a turning ring of microphones
    for c in (3, 4, 6):
        for n in (1, 5, 9):
            for step in (0, 1, 2, -1):
                for num in (1, 2, 3, 16):
                    x = g.mat(n, c)
                    g.add('rotate', 'SpatialInterpolatorConstantRotation', [x],
                          lambda: ac.SpatialInterpolatorConstantRotation(
                              source=g.src(x, 100.), mics=zoo.ring(c), method='linear', array_dimension='ring',
                              rotational_speed=step * 100. / c), num, k=step)
    # trigger
    for i in range(150 if q else 1500):
        n = int(r.choice([6, 20, 60]))
        x = np.where(r.rand(n, 1) < .25, r.randint(1, 9, size=(n, 1)), 0)
        if r.rand() < .3:
            x = -x
        if r.rand() < .15:   # more than one block of the trigger's own reads
            off = int(r.choice([2020, 2045, 2048, 2049]))
            x = np.concatenate([x[:4], np.zeros((off, 1), int), x])
        thr = int(r.choice([1, 2, 4])) * (-1 if x.min() < 0 else 1)
        rect = bool(r.rand() < .5)
        ext = bool(r.rand() < .5)
        num, den = [(1, 10), (1, 2), (9, 10)][r.randint(3)]
        keep = np.flatnonzero(x[:, 0])
        ev = {'op': 'trigger', 'xs': [x.tolist()], 'x': '', 'thr': thr, 'rect': rect, 'num': num, 'den': den,
              'extremum': ext}
        try:
            d = ac.Trigger(source=g.src(x), threshold=float(thr), trigger_type='rect' if rect else 'dirac',
                           hunk_length=num / den * (1 + 1e-12) if False else num / den,
                           multiple_peaks_in_hunk='extremum' if ext else 'first').trigger_data
            ev['out'] = [[int(v) for v in d[0]], [int(d[1]), int(d[2])]]
        except Exception as e:  # noqa: BLE001
            if 'Not enough trigger info' in str(e):
                ev['out'] = [[]]
            else:
                ev['x'], ev['out'] = repr(e)[:100], []
        g.traces.append({'key': 'Trigger', 'desc': f'Trigger nonzero={keep.tolist()[:20]} of {n} thr={thr} rect={rect} '
                         f'extremum={ext} hunk={num}/{den}', 'ev': [ev]})
    for t in g.traces[:: len(g.traces) // 6]:
        ctx.sample({'case': t['desc'], 'out': str(t['ev'][0]['out'])[:80]})
    ctx.report_bad(ctx.check_traces('SampleOpsTrace', g.traces))
    ctx.extra['operators'] = sorted({t['key'] for t in g.traces})
    ctx.assumptions = ['integer-valued data, so that floating point results are exact after rounding']

"""The zoo: one builder per block-wise object of the package, in several configurations.

Every builder makes a *fresh* object graph over fresh source arrays, so that a check can compare
histories of one object with a twin that has no history. `watch` holds the arrays the user owns."""
import os, warnings
import numpy as np
from vh.common import SCRATCH

ac = None
OPS = {}


class Inst:
    def __init__(self, obj, watch=(), keep=(), call=None, cleanup=None):
        self.obj, self.watch, self.keep = obj, list(watch), keep
        self.call = call or (lambda n: obj.result(n))
        self.cleanup = cleanup


class Op:
    def __init__(self, name, make, cls, sizes, inter, tol, cost, maxnum, meta):
        self.name, self.make, self.cls, self.sizes = name, make, cls, sizes
        self.inter, self.tol, self.cost, self.maxnum, self.meta = inter, tol, cost, maxnum, meta


def op(name, cls, sizes=(1, 5, 8, 12, 13), inter=True, tol=0.0, cost=1, maxnum=None, meta=True):
    def deco(f):
        OPS[name] = Op(name, f, cls, tuple(sizes), inter, tol, cost, maxnum, meta)
        return f
    return deco


def data(n, c=3, seed=0, lo=-9, hi=10):
    r = np.random.RandomState(1000 * seed + 17 * n + c)
    d = r.randint(lo, hi, size=(n, c)).astype(float)
    d[:, 0] = (np.arange(n) * 7 + 3) % 251 + 20 + np.arange(n) // 251 * 300  # distinct rows
    return d


_uid = [0]


def fresh(suffix):
    _uid[0] += 1
    return str(SCRATCH / f'f{_uid[0]}{suffix}')


def ts(n, c=3, fs=100., seed=0, **kw):
    d = data(n, c, seed)
    return ac.TimeSamples(data=d, sample_freq=fs, **kw), d


def h5(n, c=3, fs=100., seed=0, dtype='float32'):
    import h5py
    d = data(n, c, seed)
    f = fresh('.h5')
    with h5py.File(f, 'w') as h:
        a = h.create_dataset('time_data', data=d.astype(dtype))
        a.attrs['sample_freq'] = fs
    return f, d


def mics(c=3):
    p = np.zeros((3, c))
    p[0] = np.linspace(-0.5, 0.5, c)
    p[1] = np.linspace(0.2, -0.3, c)
    return ac.MicGeom(pos_total=p)


def ring(c=6):
    p = np.zeros((3, c))
    a = np.linspace(-np.pi, np.pi, c, endpoint=False) + 0.1
    p[0], p[1] = np.cos(a), np.sin(a)
    return ac.MicGeom(pos_total=p)


def traj(T=2.0):
    t = ac.Trajectory()
    t.points = {k * T / 8 - T / 8: (-0.4 + 0.1 * k, 0.05 * k, 1.0 + 0.02 * k) for k in range(12)}
    return t


def grid():
    return ac.RectGrid(x_min=-0.2, x_max=0.2, y_min=-0.1, y_max=0.1, z=1.0, increment=0.2)


def wn(n, fs=1000., seed=1):
    return ac.WNoiseGenerator(sample_freq=fs, num_samples=n, seed=seed)


def simple(name, cls=None, kw=None, n_arg=None, **opkw):
    """operators over a TimeSamples source"""
    cls = cls or name

    def make(n):
        s, d = ts(n, fs=(kw or {}).get('fs', 100.))
        k = {a: (b() if callable(b) else b) for a, b in (kw or {}).items() if a != 'fs'}
        return Inst((getattr(ac, cls, None) or getattr(ac.process, cls))(source=s, **k), [d])
    op(name, cls, **opkw)(make)


class Consumer:
    """a consumer of a SampleSplitter: the splitter identifies its caller by `self`"""
    def __init__(self, sp):
        self.sp = sp

    def result(self, num):
        yield from self.sp.result(num)


def build():
    global ac
    if ac is not None:
        return OPS
    import acoular as ac_
    ac = ac_
    ac.config.cache_dir = str(SCRATCH / 'cache')
    ac.config.td_dir = str(SCRATCH / 'td')
    os.makedirs(ac.config.td_dir, exist_ok=True)
    ac.config.global_caching = 'none'
    BIG = (1, 16, 24, 31)

    # ---- sources ------------------------------------------------------------------------
    @op('TimeSamples', 'TimeSamples')
    def _(n):
        s, d = ts(n)
        return Inst(s, [d])

    @op('TimeSamples.h5', 'TimeSamples')
    def _(n):
        f, d = h5(n)
        return Inst(ac.TimeSamples(file=f))

    @op('TimeSamples.calib', 'TimeSamples')
    def _(n):
        d = data(n)
        cal = ac.Calib()
        cal.data, cal.num_mics = np.array([1., 2., 3.]), 3
        return Inst(ac.TimeSamples(data=d, sample_freq=100., calib=cal), [d, cal.data])

    def mts(name, start, stop, inv, **kw):
        @op('MaskedTimeSamples' + name, 'MaskedTimeSamples', sizes=(5, 8, 12, 13), **kw)
        def _(n):
            d = data(n, 4)
            o = ac.MaskedTimeSamples(data=d, sample_freq=100., start=start, stop=stop)
            o.invalid_channels = list(inv)
            return Inst(o, [d])

        @op('MaskedTimeOut' + name, 'MaskedTimeOut', sizes=(5, 8, 12, 13), **kw)
        def _(n):
            s, d = ts(n, 4)
            o = ac.MaskedTimeOut(source=s, start=start, stop=stop)
            o.invalid_channels = list(inv)
            return Inst(o, [d])
    mts('', 0, None, [])
    mts('.mid', 2, 4, [1])
    mts('.start', 3, None, [])
    mts('.stop', 0, 4, [0, 2])
    mts('.neg', 1, -1, [])
    mts('.negstart', -4, None, [3])
    mts('.beyond', 1, 10 ** 6, [])

    @op('MaskedTimeSamples.h5', 'MaskedTimeSamples', sizes=(5, 12))
    def _(n):
        f, d = h5(n)
        return Inst(ac.MaskedTimeSamples(file=f, start=1, stop=-1, invalid_channels=[0]))

    SRC = dict(sizes=(1, 5, 8, 13), tol=1e-9)

    @op('PointSource', 'PointSource', **SRC)
    def _(n):
        return Inst(ac.PointSource(signal=wn(n), mics=mics(), loc=(0.1, 0, 0.7), up=4))

    @op('PointSource.zeros', 'PointSource', **SRC)
    def _(n):
        return Inst(ac.PointSource(signal=wn(n), mics=mics(), loc=(0.1, 0, 1.7), up=4, prepadding='zeros'))

    @op('PointSource.start_t', 'PointSource', **SRC)
    def _(n):
        return Inst(ac.PointSource(signal=wn(n), mics=mics(), loc=(0.1, 0, .7), up=4, start_t=0.02,
                                   prepadding='zeros'))

    @op('SphericalHarmonicSource', 'SphericalHarmonicSource', **SRC)
    def _(n):
        return Inst(ac.SphericalHarmonicSource(signal=wn(n), mics=mics(), loc=(0.1, 0, 0.7), up=4, lOrder=1,
                                               alpha=np.array([1., 0.5, 0.2, 0.1])))

    @op('MovingPointSource', 'MovingPointSource', **SRC)
    def _(n):
        return Inst(ac.MovingPointSource(signal=wn(n), mics=mics(), trajectory=traj(), up=4))

    @op('MovingPointSource.conv', 'MovingPointSource', **SRC)
    def _(n):
        return Inst(ac.MovingPointSource(signal=wn(n), mics=mics(), trajectory=traj(), up=4, conv_amp=True))

    @op('PointSourceDipole', 'PointSourceDipole', **SRC)
    def _(n):
        return Inst(ac.PointSourceDipole(signal=wn(n), mics=mics(), loc=(0.1, 0, 0.7), up=4))

    @op('MovingPointSourceDipole', 'MovingPointSourceDipole', **SRC)
    def _(n):
        return Inst(ac.MovingPointSourceDipole(signal=wn(n), mics=mics(), trajectory=traj(), up=4))

    @op('LineSource', 'LineSource', **SRC)
    def _(n):
        return Inst(ac.LineSource(signal=wn(n), mics=mics(), loc=(0.1, 0, 0.7), up=4, num_sources=2, length=.2,
                                  source_strength=np.array([1., 0.5])))

    @op('LineSource.incoherent', 'LineSource', **SRC)
    def _(n):
        return Inst(ac.LineSource(signal=wn(n), mics=mics(), loc=(0.1, 0, 0.7), up=4, num_sources=2, length=.2,
                                  source_strength=np.array([1., 0.5]), coherence='incoherent'))

    @op('MovingLineSource', 'MovingLineSource', **SRC)
    def _(n):
        return Inst(ac.MovingLineSource(signal=wn(n), mics=mics(), trajectory=traj(), up=4, num_sources=2, length=.2,
                                        source_strength=np.array([1., 0.5])))

    @op('UncorrelatedNoiseSource', 'UncorrelatedNoiseSource', sizes=(1, 5, 8, 13), tol=1e-9)
    def _(n):
        return Inst(ac.UncorrelatedNoiseSource(signal=wn(n), mics=mics()))

    @op('SourceMixer', 'SourceMixer')
    def _(n):
        a, da = ts(n)
        b, db = ts(n, seed=1)
        return Inst(ac.SourceMixer(sources=[a, b]), [da, db])

    @op('SourceMixer.weights', 'SourceMixer')
    def _(n):
        a, da = ts(n)
        b, db = ts(n, seed=1)
        return Inst(ac.SourceMixer(sources=[a, b], weights=np.array([2., 3.])), [da, db])

    @op('PointSourceConvolve', 'PointSourceConvolve', sizes=(1, 5, 8, 13), tol=1e-8)
    def _(n):
        return Inst(ac.PointSourceConvolve(signal=wn(n), mics=mics(), kernel=np.array([1., .5, .25])))

    # ---- simple operators -----------------------------------------------------------------
    simple('ChannelMixer')
    simple('ChannelMixer.weights', 'ChannelMixer', kw=dict(weights=lambda: np.array([1., 2., -1.])))
    simple('TimePower')
    simple('TimeCumAverage', tol=1e-9)
    simple('TimeReverse')
    simple('FiltOctave', kw=dict(fs=48000.), tol=1e-9)
    simple('FiltOctave.third', 'FiltOctave', kw=dict(fs=48000., fraction='Third octave', band=500., order=2), tol=1e-9)
    simple('FiltFiltOctave', kw=dict(fs=48000.), tol=1e-9, sizes=(16, 24, 31))
    simple('TimeExpAverage', tol=1e-9)
    simple('FiltFreqWeight.A', 'FiltFreqWeight', kw=dict(fs=48000., weight='A'), tol=1e-7)
    simple('FiltFreqWeight.C', 'FiltFreqWeight', kw=dict(fs=48000., weight='C'), tol=1e-7)
    simple('FiltFreqWeight.Z', 'FiltFreqWeight', kw=dict(fs=48000., weight='Z'), tol=1e-7)
    simple('OctaveFilterBank', kw=dict(fs=48000., lband=27, hband=36), tol=1e-9)
    simple('OctaveFilterBank.third', 'OctaveFilterBank', kw=dict(fs=48000., lband=29, hband=32,
                                                                 fraction='Third octave'), tol=1e-9)
    simple('SpatialInterpolator', kw=dict(mics=lambda: mics(3)))
    simple('WriteWAV')
    simple('Cache')
    simple('SamplesBuffer', kw=dict(length=40), inter=False, maxnum=40)
    simple('SamplesBuffer.source_num', 'SamplesBuffer', kw=dict(length=24, source_num=3), inter=False, maxnum=8)
    simple('Average.1', 'Average', kw=dict(num_per_average=1))
    simple('Average.2', 'Average', kw=dict(num_per_average=2), sizes=(2, 5, 8, 12, 13))
    simple('Average.4', 'Average', kw=dict(num_per_average=4), sizes=(4, 8, 12, 13, 22))
    simple('Average.1000', 'Average', kw=dict(num_per_average=1000), sizes=(5300,))
    for L in (1, 3, 5, 11):
        simple(f'TimeConvolve.{L}', 'TimeConvolve', kw=dict(kernel=(lambda L=L: (np.arange(L) * 3 % 7 + 1.))),
               tol=1e-8)
    simple('TimeConvolve.2d', 'TimeConvolve',
           kw=dict(kernel=lambda: (np.arange(12.).reshape(4, 3) * 3 % 7 + 1.)), tol=1e-8)

    @op('Calib', 'Calib')
    def _(n):
        s, d = ts(n)
        c = ac.Calib(source=s)
        c.data, c.num_mics = np.array([2., 3., 4.]), 3
        return Inst(c, [d, c.data])

    @op('Trigger', 'Trigger')
    def _(n):
        s, d = ts(n, 1)
        return Inst(ac.Trigger(source=s, threshold=1.), [d])

    @op('AngleTracker', 'AngleTracker')
    def _(n):
        s, d = ts(n, 2)
        return Inst(ac.AngleTracker(source=s, trigger=ac.Trigger(source=s, threshold=1.)), [d])

    @op('SpatialInterpolatorConstantRotation', 'SpatialInterpolatorConstantRotation', tol=1e-9)
    def _(n):
        s, d = ts(n, 6)
        return Inst(ac.SpatialInterpolatorConstantRotation(source=s, mics=ring(), method='linear',
                                                           array_dimension='ring', rotational_speed=3.7), [d])

    @op('Mixer', 'Mixer')
    def _(n):
        a, da = ts(n)
        b, db = ts(n, seed=1)
        c, dc = ts(n, seed=2)
        return Inst(ac.Mixer(source=a, sources=[b, c]), [da, db, dc])

    @op('Mixer.shorter', 'Mixer', sizes=(5, 8, 12, 13), meta=False)
    def _(n):
        a, da = ts(n)
        b, db = ts(n - 3, seed=1)
        return Inst(ac.Mixer(source=a, sources=[b]), [da, db])

    @op('Mixer.longer', 'Mixer', sizes=(5, 8, 12))
    def _(n):
        a, da = ts(n)
        b, db = ts(n + 3, seed=1)
        return Inst(ac.Mixer(source=a, sources=[b]), [da, db])

    @op('WriteH5', 'WriteH5', inter=False)
    def _(n):
        s, d = ts(n)
        return Inst(ac.WriteH5(source=s, file=fresh('.h5')), [d])

    @op('SampleSplitter', 'SampleSplitter', inter=False)
    def _(n):
        s, d = ts(n)
        sp = ac.SampleSplitter(source=s, buffer_size=1000)
        c = Consumer(sp)
        object.__setattr__(c, 'sp', sp)
        from traits.api import HasTraits
        g = ac.TimePower(source=sp)
        sp.register_object(g)
        return Inst(sp, [d], call=lambda num: g.result(num), keep=[g])

    # ---- chains ---------------------------------------------------------------------------
    @op('chain.reverse(masked)', 'TimeReverse', sizes=(5, 8, 13))
    def _(n):
        s, d = ts(n, 4)
        return Inst(ac.TimeReverse(source=ac.MaskedTimeOut(source=s, start=2, invalid_channels=[1])), [d])

    @op('chain.reverse(source)', 'TimeReverse', sizes=(5, 8, 13), tol=1e-9)
    def _(n):
        return Inst(ac.TimeReverse(source=ac.PointSource(signal=wn(n), mics=mics(), loc=(0.1, 0, 0.7), up=4)))

    @op('chain.avg(power(masked))', 'Average', sizes=(8, 13))
    def _(n):
        s, d = ts(n, 4)
        return Inst(ac.Average(source=ac.TimePower(source=ac.MaskedTimeOut(source=s, start=1)), num_per_average=2), [d])

    @op('chain.mixer(masked)', 'Mixer', sizes=(8, 13), meta=True)
    def _(n):
        s, d = ts(n, 3)
        s2, d2 = ts(n - 1, 3, seed=3)
        return Inst(ac.Mixer(source=ac.MaskedTimeOut(source=s, start=1), sources=[ac.TimePower(source=s2)]), [d, d2])

    @op('chain.filt(avg)', 'Filter', sizes=(8, 13), tol=1e-9)
    def _(n):
        s, d = ts(n, 3, fs=48000.)
        return Inst(ac.FiltOctave(source=ac.Average(source=s, num_per_average=2), band=500.), [d])

    # ---- spectra ----------------------------------------------------------------------------
    def spec(name, f, **kw):
        def make(n):
            s, d = ts(n, 2)
            return Inst(f(s), [d])
        op(name, name.split('.')[0], sizes=kw.pop('sizes', (4, 8, 13, 24, 35)), tol=1e-9, **kw)(make)
    spec('RFFT', lambda s: ac.RFFT(source=s, block_size=4))
    spec('RFFT.hann50', lambda s: ac.RFFT(source=s, block_size=8, window='Hanning', overlap='50%'))
    spec('RFFT.75', lambda s: ac.RFFT(source=s, block_size=4, overlap='75%', scaling='amplitude'))
    spec('AutoPowerSpectra', lambda s: ac.AutoPowerSpectra(source=ac.RFFT(source=s, block_size=4)))
    spec('AutoPowerSpectra.psd', lambda s: ac.AutoPowerSpectra(source=ac.RFFT(source=s, block_size=8), scaling='psd'))
    spec('CrossPowerSpectra', lambda s: ac.CrossPowerSpectra(source=ac.RFFT(source=s, block_size=4)))
    spec('CrossPowerSpectra.upper', lambda s: ac.CrossPowerSpectra(source=ac.RFFT(source=s, block_size=4),
                                                                   calc_mode='upper'))
    spec('CrossPowerSpectra.lower', lambda s: ac.CrossPowerSpectra(source=ac.RFFT(source=s, block_size=4),
                                                                   calc_mode='lower'))
    spec('Average.spectra', lambda s: ac.Average(source=ac.CrossPowerSpectra(source=ac.RFFT(source=s, block_size=4)),
                                                 num_per_average=2))
    spec('Average.rfft', lambda s: ac.Average(source=ac.AutoPowerSpectra(source=ac.RFFT(source=s, block_size=4)),
                                              num_per_average=3), sizes=(13, 24, 35))
    spec('Cache.rfft', lambda s: ac.Cache(source=ac.RFFT(source=s, block_size=4)))
    spec('IRFFT', lambda s: ac.IRFFT(source=ac.RFFT(source=s, block_size=4)), sizes=(4, 8, 13, 24))
    spec('IRFFT.8', lambda s: ac.IRFFT(source=ac.RFFT(source=s, block_size=8)), sizes=(8, 13, 24))
    spec('IRFFT.cache', lambda s: ac.IRFFT(source=ac.Cache(source=ac.RFFT(source=s, block_size=8))), sizes=(24,)) \
        if False else None

    # ---- time-domain beamforming -------------------------------------------------------------
    def tb(name, f, fs=1000., **kw):
        def make(n):
            s, d = ts(n, 3, fs=fs)
            st = ac.SteeringVector(grid=grid(), mics=mics())
            return Inst(f(s, st), [d])
        op(name, name.split('.')[0], sizes=kw.pop('sizes', (12, 24, 31)), tol=1e-7, cost=3, **kw)(make)
    tb('BeamformerTime', lambda s, st: ac.BeamformerTime(source=s, steer=st))
    tb('BeamformerTime.power', lambda s, st: ac.BeamformerTime(source=s, steer=st, weights='power'))
    tb('BeamformerTimeSq', lambda s, st: ac.BeamformerTimeSq(source=s, steer=st))
    tb('BeamformerTimeSq.nodiag', lambda s, st: ac.BeamformerTimeSq(source=s, steer=st, r_diag=False, weights='power'))
    tb('BeamformerTimeTraj', lambda s, st: ac.BeamformerTimeTraj(source=s, steer=st, trajectory=traj()))
    tb('BeamformerTimeTraj.power', lambda s, st: ac.BeamformerTimeTraj(source=s, steer=st, trajectory=traj(),
                                                                       weights='power', conv_amp=True))
    tb('BeamformerTimeSqTraj', lambda s, st: ac.BeamformerTimeSqTraj(source=s, steer=st, trajectory=traj()))
    FAST = dict(fs=20000., sizes=(80, 133, 200), meta=False)    # delays longer than the block
    tb('BeamformerTime.fast', lambda s, st: ac.BeamformerTime(source=s, steer=st), **FAST)
    tb('BeamformerTimeTraj.fast', lambda s, st: ac.BeamformerTimeTraj(source=s, steer=st, trajectory=traj()), **FAST)
    tb('BeamformerTimeSqTraj.fast', lambda s, st: ac.BeamformerTimeSqTraj(source=s, steer=st, trajectory=traj(),
                                                                          conv_amp=True), **FAST)
    tb('BeamformerTimeTraj.ends', lambda s, st: ac.BeamformerTimeTraj(source=s, steer=st, trajectory=traj(.02)),
       sizes=(12, 24, 31, 60), meta=False)
    tb('BeamformerTimeTraj.turns', lambda s, st: ac.BeamformerTimeTraj(source=s, steer=st, trajectory=traj(.02),
                                                                       rvec=np.array((0, 0, 1.)), conv_amp=True, precision=32),
       sizes=(12, 24, 31, 60), meta=False)
    tb('BeamformerCleant', lambda s, st: ac.BeamformerCleant(source=s, steer=st, n_iter=3))
    tb('BeamformerCleantSq', lambda s, st: ac.BeamformerCleantSq(source=s, steer=st, n_iter=3))
    tb('BeamformerCleantTraj', lambda s, st: ac.BeamformerCleantTraj(source=s, steer=st, trajectory=traj(), n_iter=3))
    tb('BeamformerCleantSqTraj', lambda s, st: ac.BeamformerCleantSqTraj(source=s, steer=st, trajectory=traj(),
                                                                         n_iter=3))

    @op('IntegratorSectorTime', 'IntegratorSectorTime', tol=1e-9)
    def _(n):
        d = abs(data(n, 6))
        s = ac.TimeSamples(data=d, sample_freq=100.)
        g = ac.RectGrid(x_min=0, x_max=2, y_min=0, y_max=1, z=1, increment=1)
        return Inst(ac.IntegratorSectorTime(source=s, grid=g, sectors=[(0, 0, 1), (0, 0, 2, 1)]), [d])
    return OPS

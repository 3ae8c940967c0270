"""The catalogue: configurable objects of the package with the parameters a user may assign.

An entry has a maker of the object graph, for every parameter a list of values, and an observer of the
results. Values that are functions make a new object; '[]' marks an assignment inside a container."""
import os
import warnings
from pathlib import Path
import numpy as np
from vh import zoo
from vh.zoo import data, mics, wn, traj, grid

ENTRIES = {}
ac = None
SKIP = {'digest', 'numchannels', 'numsamples', 'numfreqs', 'numbands', 'naverage', 'numpoints', 'mpos', 'mpos_tot', 'name', 'n',
        'numchannels_total', 'numsamples_total', 'max_iter', 'na', 'beamformer', 'time_data', 'virtNewCoord', 'trigger_data', 'inv_digest'}


class Entry:
    def __init__(self, name, make, out, params, tol, weak, view):
        self.name, self.make, self.out, self.tol, self.weak = name, make, out, tol, weak
        self.view = view        # parameters that say which part of the result is taken: no part of the digest
        self.params = list(params)
        self.values = [list(params[p]) for p in self.params]

    def new(self, cfg):
        """A new object graph with the parameters of the configuration."""
        o = self.make()
        for i in range(len(self.params)):
            self.set(o, cfg, i)
        return o

    def set(self, root, cfg, i):
        """Assign the parameter; a new sub-object gets the current values of its own parameters first."""
        path = self.params[i]
        v = self.values[i][cfg[i] - 1]
        if callable(v):
            v = v()
            for j, p in enumerate(self.params):
                if p.startswith(path + '.') and not callable(self.values[j][0]):
                    put(v, p[len(path) + 1:], self.values[j][cfg[j] - 1])
                elif p.startswith(path + '.'):
                    put(v, p[len(path) + 1:], self.values[j][cfg[j] - 1]())
        put(root, path, v)

    def res(self, o):
        return arrays(lambda: self.out(o))

    def props(self, o):
        r = []
        for n in sorted(o.trait_names()):
            if n in SKIP or n.startswith('_') or n in self.weak:
                continue
            t = o.trait(n)
            if t.type in ('property', 'delegate'):
                r += [n] + arrays(lambda n=n: getattr(o, n))
        return r


def put(o, path, v):
    *head, last = path.split('.')
    for h in head:
        o = o[int(h)] if h.isdigit() else getattr(o, h)
    if isinstance(v, (list, dict)):
        v = type(v)(v)
    if isinstance(v, np.ndarray):
        v = v.copy()
    if last.endswith('[]'):
        x = getattr(o, last[:-2])
        if isinstance(v, dict):
            x.clear()
            x.update(v)
        else:
            x[:] = v
    elif last.isdigit():
        o[int(last)] = v
    else:
        setattr(o, last, v)


def arrays(f):
    """The value as a list of [text or array]; exceptions by their type."""
    try:
        v = f()
    except Exception as e:  # noqa: BLE001
        return ['exc ' + type(e).__name__]
    return flat(v)


def flat(v):
    if isinstance(v, (list, tuple)) and any(not np.isscalar(x) for x in v):
        return [f'{len(v)}:'] + [y for x in v for y in flat(x)]
    if v is None or isinstance(v, (str, slice, dict)):
        return [str(v)]
    try:
        a = np.array(v)
        if a.dtype.kind in 'biufc':
            return [str(a.dtype), a] if isinstance(v, np.ndarray) else [a]
        return [str(a.dtype)]
    except Exception:  # noqa: BLE001
        return [type(v).__name__]


def equal(a, b, tol):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(x, str) or isinstance(y, str):
            if not (isinstance(x, str) and isinstance(y, str) and x == y):
                return False
        elif x.shape != y.shape or not np.allclose(x, y, rtol=tol, atol=tol * (np.abs(y[np.isfinite(y)]).max(initial=0.) if y.size else 0.), equal_nan=True):
            return False
    return True


def stream(o, num=8):
    b = [np.array(x) for x in o.result(num)]
    return np.concatenate(b) if b else np.zeros(0)


def files(ds):
    """HDF5 files with the data; the first two differ in the directory only."""
    r = []
    for i, d in enumerate(ds):
        f = Path(os.environ['VERIF_SCRATCH']) / 'cat' / str(i) / f'{"xxy"[i]}.h5'
        r.append(str(f))
        if not f.exists():
            f.parent.mkdir(parents=True, exist_ok=True)
            ac.WriteH5(source=ac.TimeSamples(data=d.copy(), sample_freq=100.), file=str(f)).save()
    return r


def entry(name, params, make=None, out=stream, tol=1e-6, weak=(), view=('freq_data.ind_low', 'freq_data.ind_high')):
    def deco(f):
        ENTRIES[name] = Entry(name, f, out, params, tol, weak, view)
        return f
    return deco(make) if make else deco


def build():
    global ac
    if ENTRIES:
        return ENTRIES
    zoo.build()
    ac = zoo.ac
    A = np.array
    E = entry
    P3 = A([[-.5, 0., .4], [.1, -.2, .3], [0., .1, 0.]])
    P4 = A([[-.5, 0., .4, .2], [.1, -.2, .3, .3], [0., .1, 0., .2]])
    Q3 = P3 + .05
    BIG = np.random.RandomState(3).uniform(-1, 1, (3, 400))
    BIG2 = BIG.copy()
    BIG2[:, 200] += .1
    TINY = P3.copy()
    TINY[0, 0] += 3e-10

    def mg(p=P3):
        return ac.MicGeom(pos_total=p)

    def sig(n=24, **kw):
        return ac.WNoiseGenerator(sample_freq=1000., num_samples=n, **kw)

    def tsr(n=24, c=3, seed=0, fs=100.):
        return zoo.ts(n, c, fs, seed)[0]

    def noise(n=256, c=3, seed=0, fs=8000.):
        return ac.TimeSamples(data=np.random.RandomState(seed).standard_normal((n, c)), sample_freq=fs)
    T1 = {0.: (0., 0., 1.), .5: (.1, 0., 1.), 1.: (.2, .3, 1.2), 2.: (0., .4, 1.)}
    T2 = {0.: (0., 0., 1.), .5: (.1, .2, 1.), 1.: (.2, .3, 1.2), 2.: (0., .4, 1.)}
    T3 = {0.: (0., 0., 1.), .25: (.1, 0., 1.), 1.: (.2, .3, 1.2), 3.: (0., .4, 1.)}

    def tr(p=T1):
        return ac.Trajectory(points=p)

    # ---- geometry -------------------------------------------------------------------------------
    geo = lambda o: [np.array(o.pos), o.num_mics, np.array(o.center), o.aperture]
    E('MicGeom', {'pos_total': [P3, P4, Q3], 'invalid_channels': [[], [1], [0, 2]]}, lambda: ac.MicGeom(), geo)
    E('MicGeom.fine', {'pos_total': [P3, TINY, -P3], 'invalid_channels': [[], [2]]}, lambda: ac.MicGeom(), geo, tol=1e-13)
    E('MicGeom.large', {'pos_total': [BIG, BIG2], 'invalid_channels': [[], [200]]}, lambda: ac.MicGeom(), geo)
    E('MicGeom.inplace', {'pos_total': [P3, P4], 'invalid_channels[]': [[], [1], [0, 2]]}, lambda: ac.MicGeom(), geo)

    gr = lambda o: [np.array(o.pos), A(o.shape), o.size, A(o.extent if hasattr(o, 'extent') else 0)]
    bnd = {'x_min': [-1., -.5], 'x_max': [1., .6], 'y_min': [-1., 0.], 'y_max': [1., .5]}
    E('RectGrid', {**bnd, 'z': [1., 2.], 'increment': [.5, .25]}, lambda: ac.RectGrid(), gr)
    E('RectGrid3D', {**bnd, 'z_min': [-1., 0.], 'z_max': [1., 1.5], 'increment': [.5, .25, A([.5, .25, 1.])]}, lambda: ac.RectGrid3D(), gr)
    E('LineGrid', {'loc': [(0., 0., 0.), (0., 1., 0.)], 'direction': [(1., 0., 0.), (0., 2., 0.)], 'length': [1., 2.], 'num_points': [3, 5]},
      lambda: ac.LineGrid(), gr)
    E('ImportGrid', {'pos': [P3, P4, TINY]}, lambda: ac.ImportGrid(), gr, tol=1e-13)
    E('ImportGrid.large', {'pos': [BIG, BIG2]}, lambda: ac.ImportGrid(), gr)
    E('MergeGrid', {'grids': [lambda: [ac.RectGrid(increment=1.), ac.LineGrid(num_points=4)], lambda: [ac.RectGrid(increment=1.)],
                              lambda: [ac.LineGrid(num_points=4), ac.RectGrid(increment=1.)]],
                    'grids.0.length': [1., 2.]} if False else
      {'grids.0.increment': [1., .5], 'grids.0.z': [1., 2.], 'grids.1.length': [2., 3.], 'grids.1.num_points': [4, 3]},
      lambda: ac.MergeGrid(grids=[ac.RectGrid(), ac.LineGrid()]), lambda o: [np.array(o.pos), o.size])
    E('MergeGrid.list', {'grids': [lambda: [ac.RectGrid(increment=1.), ac.LineGrid(num_points=4)], lambda: [ac.RectGrid(increment=1.)],
                                   lambda: [ac.LineGrid(num_points=4), ac.RectGrid(increment=1., z=2.)]]},
      lambda: ac.MergeGrid(), lambda o: [np.array(o.pos), o.size])

    def sect(o):
        g = ac.RectGrid(x_min=-1., x_max=1., y_min=-1., y_max=1., z=0., increment=.25)
        return A(o.contains(g.pos))
    E('CircSector', {'x': [0., .3], 'y': [0., .2], 'r': [.5, .9]}, lambda: ac.CircSector(), sect)
    E('RectSector', {'x_min': [-1., -.5], 'x_max': [1., .6], 'y_min': [-1., 0.], 'y_max': [1., .5]}, lambda: ac.RectSector(), sect)
    E('PolySector', {'edges': [[0, 0, 0, .5, .5, .5], [0, 0, 0, 1., .7, .5]]}, lambda: ac.PolySector(), sect)
    E('ConvexSector', {'edges': [[0, 0, 0, .5, .5, .5], [0, 0, 0, 1., .7, .5]]}, lambda: ac.ConvexSector(), sect)

    # ---- environments -----------------------------------------------------------------------------
    GP, MP = A([[0., .3], [0., .1], [1., 1.2]]), P3
    dist = lambda o: np.array(o._r(GP, MP))
    E('Environment', {'c': [343., 300.]}, lambda: ac.Environment(), dist)
    E('UniformFlowEnvironment', {'c': [343., 300.], 'ma': [0., .2], 'fdv': [A((1., 0, 0)), A((0., 1, 0))]}, lambda: ac.UniformFlowEnvironment(), dist)
    fl = lambda o: [np.array(x) for x in o.v(A((.1, .2, .3)))]
    E('OpenJet', {'v0': [10., 20.], 'origin': [A((0., 0, 0)), A((0, .1, 0.))], 'D': [.4, .6], 'l': [6.2, 4.]}, lambda: ac.OpenJet(), fl)
    E('SlotJet', {'v0': [10., 20.], 'origin': [A((0., 0, 0)), A((0, .1, 0.))], 'B': [.4, .6], 'l': [5.2, 4.],
                  'flow': [A((1., 0, 0)), A((1., .2, 0))], 'plane': [A((0, 1., 0)), A((0., 1, .3))]}, lambda: ac.SlotJet(), fl)
    E('RotatingFlow', {'v0': [0., 20.], 'origin': [A((0., 0, 0)), A((0, .1, 0.))], 'rps': [1., -2.]}, lambda: ac.RotatingFlow(), fl)
    E('GeneralFlowEnvironment', {'c': [343., 300.], 'N': [30, 40], 'Om': [np.pi, 3.], 'ff': [lambda: ac.OpenJet(v0=40.), lambda: ac.RotatingFlow(rps=2.)],
                                 'ff.v0': [40., 80.], 'ff.origin': [A((-.2, 0, 0.5)), A((-.2, .4, .5))]}, lambda: ac.GeneralFlowEnvironment(), dist, tol=1e-9)

    # ---- steering vectors ----------------------------------------------------------------------------
    st = lambda o: [np.array(o.r0), np.array(o.rm), np.array(o.transfer(500.)), np.array(o.steer_vector(500.)), np.array(o.transfer(900., 1))]
    E('SteeringVector', {'steer_type': ['true level', 'classic', 'inverse', 'true location', 'custom'] [:4], 'ref': [0., 1., A((0., .5, 0))],
                         'grid': [grid, lambda: ac.LineGrid(num_points=4)], 'mics': [mg, lambda: mg(Q3)], 'mics.pos_total': [P3, P4], 'mics.invalid_channels': [[], [1]],
                         'env': [lambda: ac.Environment(), lambda: ac.UniformFlowEnvironment(ma=.3)], 'env.c': [343., 300.]},
      lambda: ac.SteeringVector(), st)
    E('SteeringVector.grid', {'grid.increment': [.2, .1], 'grid.z': [1., 2.], 'grid.x_max': [.2, .4], 'env.ff.v0': [20., 60.], 'env.ff.D': [.4, .8], 'env.N': [30, 40]},
      lambda: ac.SteeringVector(grid=grid(), mics=ac.MicGeom(pos_total=A([[-.5, .1, .4], [.2, .3, -.3], [0., 0., .1]])), env=ac.GeneralFlowEnvironment(ff=ac.OpenJet(origin=(-2., .05, -.3)), N=30)), st)
    E('PointSpreadFunction', {'grid_indices': [A([0, 1]), A([2]), A([1, 0])], 'calcmode': ['single', 'block', 'full', 'readonly'][:3], 'precision': ['float64', 'float32'],
                              'freq': [1000., 1500.], 'steer': [lambda: ac.SteeringVector(grid=grid(), mics=mg())], 'steer.steer_type': ['true level', 'classic'],
                              'steer.mics.pos_total': [P3, P4], 'steer.grid.z': [1., .5], 'steer.env.c': [343., 200.]},
      lambda: ac.PointSpreadFunction(steer=ac.SteeringVector(grid=grid(), mics=mg())), lambda o: np.array(o.psf), tol=1e-5, weak=('psf',), view=('freq', 'grid_indices', 'calcmode'))

    # ---- trajectory, signals ----------------------------------------------------------------------------
    trj = lambda o: [A(o.location(A([.1, .4, .9]))), A(list(o.traj(.2, 1., .1))), A(list(o.traj(.1, der=1)))]
    E('Trajectory', {'points': [T1, T2, T3]}, lambda: ac.Trajectory(), trj)
    E('Trajectory.inplace', {'points[]': [T1, T2, T3]}, lambda: ac.Trajectory(), trj)
    sg = lambda o: np.array(o.signal())
    common = {'sample_freq': [1000., 800.], 'num_samples': [40, 25]}
    E('SineGenerator', {**common, 'freq': [100., 33.], 'phase': [0., 1.], 'amplitude': [1., 2.]}, lambda: ac.SineGenerator(), sg)
    E('SineGenerator.rms', {'freq': [100., 33.], 'rms': [1., 2.]}, lambda: ac.SineGenerator(sample_freq=1000., num_samples=40), sg) if False else None
    E('WNoiseGenerator', {**common, 'rms': [1., 2.], 'seed': [0, 7]}, lambda: ac.WNoiseGenerator(), sg)
    E('PNoiseGenerator', {**common, 'rms': [1., 2.], 'seed': [0, 7], 'depth': [4, 6]}, lambda: ac.PNoiseGenerator(), sg)
    E('FiltWNoiseGenerator', {**common, 'rms': [1., 2.], 'seed': [0, 7], 'ar': [A([1., .5]), A([1., -.5])], 'ma': [A([1.]), A([1., .2])]},
      lambda: ac.FiltWNoiseGenerator(), sg)
    E('GenericSignalGenerator', {'source': [lambda: tsr(24, 1), lambda: tsr(24, 1, seed=1)], 'loop_signal': [True, False], 'num_samples': [24, 30], 'amplitude': [1., 2.],
                                 'source.sample_freq': [100., 200.]}, lambda: ac.GenericSignalGenerator(), sg)

    # ---- sources -----------------------------------------------------------------------------------------
    D1, D2 = data(24), data(24, seed=1)
    D3 = D1.copy()
    D3[5, 1] += 1
    D4 = D1[::-1].copy()
    D4[0] = D1[0]
    E('TimeSamples', {'data': [D1, D2, data(30, 2)], 'sample_freq': [100., 50.], 'calib': [lambda: None, lambda: ac.Calib(data=A([1., 2., 3.]))]}, lambda: ac.TimeSamples())
    E('TimeSamples.data', {'data': [D1, D3, D4], 'sample_freq': [100., 50.]}, lambda: ac.TimeSamples())
    F = files([D1, D2, data(30, 3)])
    E('TimeSamples.file', {'file': F, 'calib': [lambda: None, lambda: ac.Calib(data=A([1., 2., 3.]))]}, lambda: ac.TimeSamples())
    E('MaskedTimeSamples.file', {'file': F, 'start': [0, 3], 'stop': [None, 20, -2], 'invalid_channels': [[], [1]]}, lambda: ac.MaskedTimeSamples())
    E('MaskedTimeSamples', {'data': [D1, D2, data(30, 3)], 'sample_freq': [100., 50.], 'start': [0, 3], 'stop': [None, 20, -2], 'invalid_channels': [[], [1]]},
      lambda: ac.MaskedTimeSamples())
    E('MaskedTimeSamples.inplace', {'data': [D1, D2], 'invalid_channels[]': [[], [1], [0, 2]]}, lambda: ac.MaskedTimeSamples())
    src = {'signal': [sig, lambda: sig(seed=3)], 'signal.rms': [1., 2.], 'signal.num_samples': [24, 32], 'mics': [mg, lambda: mg(Q3)],
           'mics.pos_total': [P3, P4], 'loc': [(0., 0., 1.), (.2, 0., .5)], 'env': [lambda: ac.Environment(), lambda: ac.Environment()],
           'env.c': [343., 200.], 'start_t': [0., .004], 'start': [0., .003]}
    pre = {'up': [16, 4], 'prepadding': ['loop', 'zeros']}
    up = {'up': [16, 4]}
    E('PointSource', {**src, **pre}, lambda: ac.PointSource())
    E('SphericalHarmonicSource', {**src, **up, 'lOrder': [1], 'alpha': [A([1., .5, .2, .1]), A([1., .5, .2, .6])], 'direction': [(1., 0., 0.), (0., 1., 1.)]},
      lambda: ac.SphericalHarmonicSource())
    mov = {**src, **up, 'trajectory': [tr, lambda: tr(T2)], 'trajectory.points': [T1, T3], 'conv_amp': [False, True]}
    E('MovingPointSource', mov, lambda: ac.MovingPointSource())
    E('PointSourceDipole', {**src, **up, 'direction': [(0., 0., 1.), (0., .5, 0.)]}, lambda: ac.PointSourceDipole())
    E('MovingPointSourceDipole', {**mov, 'direction': [(0., 0., 1.), (0., .5, 0.)], 'rvec': [A((0., 0, 0)), A((0., 0., 1.))]}, lambda: ac.MovingPointSourceDipole())
    lin = {'direction': [(0., 0., 1.), (0., .5, 0.)], 'length': [1., .5], 'num_sources': [2], 'source_strength': [A([1., .5]), A([1., 2.])],
           'coherence': ['coherent', 'incoherent']}
    E('LineSource', {**src, **pre, **lin}, lambda: ac.LineSource())
    E('LineSource.num', {**src, 'num_sources': [1, 3], 'source_strength': [A([1., .5, .2])]}, lambda: ac.LineSource())
    E('MovingLineSource', {**mov, **lin}, lambda: ac.MovingLineSource())
    E('UncorrelatedNoiseSource', {'signal': [sig, lambda: ac.PNoiseGenerator(sample_freq=1000., num_samples=24)], 'signal.rms': [1., 2.], 'signal.num_samples': [24, 32],
                                  'mics': [mg, lambda: mg(P4)], 'mics.pos_total': [P3, Q3], 'seed': [A([], dtype=int), A([1, 2, 3])]}, lambda: ac.UncorrelatedNoiseSource())
    E('SourceMixer', {'sources': [lambda: [tsr(), tsr(seed=1)], lambda: [tsr(seed=1), tsr(seed=2)], lambda: [tsr(30, 2), tsr(30, 2, 1)]],
                      'weights': [A([]), A([1., 2.])], 'sources.0.sample_freq': [100., 60.], 'sources.1.sample_freq': [100., 60.], 'sources.0.data': [D1, D2]},
      lambda: ac.SourceMixer())
    E('SourceMixer.inplace', {'sources[]': [lambda: [tsr(), tsr(seed=1)], lambda: [tsr(seed=1)], lambda: [tsr(30, 2), tsr(30, 2, 1), tsr(30, 2, 2)]]},
      lambda: ac.SourceMixer(sources=[tsr()]))
    K1 = np.r_[np.zeros(1200), 1.]
    K2 = K1.copy()
    K2[20] = .5
    E('PointSourceConvolve', {'signal': [sig, lambda: sig(seed=3)], 'signal.rms': [1., 2.], 'signal.num_samples': [24, 32], 'mics': [mg, lambda: mg(P4)],
                              'mics.pos_total': [P3, Q3], 'loc': [(0., 0., 1.), (.2, 0., .5)], 'kernel': [A([1., .5]), A([1., .5, .2]), A([1., .6])], 'env': [lambda: ac.Environment()],
                              'env.c': [343., 100.]}, lambda: ac.PointSourceConvolve())

    # ---- time-domain processing ---------------------------------------------------------------------------
    so = {'source': [tsr, lambda: tsr(seed=1), lambda: tsr(30, 3, 2)], 'source.sample_freq': [100., 60.], 'source.data': [D1, D3, data(28, 2)]}
    fs = {'source': [lambda: tsr(fs=48000.), lambda: tsr(seed=1, fs=48000.)], 'source.sample_freq': [48000., 44100.], 'source.data': [D1, D2, data(28, 2)]}
    for n in ('TimePower', 'TimeCumAverage', 'TimeReverse', 'Cache'):
        E(n, so, lambda n=n: getattr(ac, n)())
    E('ChannelMixer', {**so, 'weights': [A([]), A([1., 2., 3.]), A([2., 3., 1.])]}, lambda: ac.ChannelMixer())
    E('MaskedTimeOut', {**so, 'start': [0, 3], 'stop': [None, 20, -2], 'invalid_channels': [[], [1], [0]]}, lambda: ac.MaskedTimeOut())
    E('MaskedTimeOut.inplace', {**so, 'invalid_channels[]': [[], [1], [0]]}, lambda: ac.MaskedTimeOut())
    E('Calib', {'source': so['source'], 'source.data': [D1, D2], 'data': [A([1., 2., 3.]), A([2., 2., 3.])]}, lambda: ac.Calib())
    E('Calib.masked', {'source.data': [data(24, 2), data(24, 2, 1)], 'invalid_channels': [[0], [1], [2]], 'data': [A([1., 2., 3.]), A([2., 1., 3.])]}, lambda: ac.Calib(source=tsr(24, 2)))
    E('Average', {**so, 'num_per_average': [2, 3]}, lambda: ac.Average())
    E('FiltOctave', {**fs, 'band': [1000., 2000.], 'fraction': ['Octave', 'Third octave'], 'order': [3, 2]}, lambda: ac.FiltOctave())
    E('FiltFiltOctave', {**fs, 'band': [1000., 2000.], 'fraction': ['Octave', 'Third octave'], 'order': [2, 1]}, lambda: ac.FiltFiltOctave(), tol=1e-5)
    E('TimeExpAverage', {**fs, 'weight': ['F', 'S', 'I']}, lambda: ac.TimeExpAverage())
    E('FiltFreqWeight', {**fs, 'weight': ['A', 'C', 'Z']}, lambda: ac.FiltFreqWeight())
    E('OctaveFilterBank', {**fs, 'lband': [27, 28], 'hband': [31, 30], 'fraction': ['Octave', 'Third octave']}, lambda: ac.OctaveFilterBank())
    E('TimeConvolve', {**so, 'kernel': [A([1., .5]), A([1., .5, .2]), K1, K2]}, lambda: ac.TimeConvolve())
    E('Mixer', {'source': so['source'], 'source.data': [D1, D2], 'sources': [lambda: [tsr(seed=3)], lambda: [tsr(seed=4), tsr(seed=5)]],
                'sources.0.data': [D2, D3]}, lambda: ac.Mixer())
    E('Mixer.inplace', {'source.data': [D1, D2], 'sources[]': [lambda: [tsr(seed=3)], lambda: [tsr(seed=4), tsr(seed=5)]]}, lambda: ac.Mixer(source=tsr(), sources=[tsr()]))
    E('chain', {'source': [lambda: ac.MaskedTimeOut(source=tsr()), lambda: ac.MaskedTimeOut(source=tsr(), invalid_channels=[0])], 'source.source': so['source'], 'source.source.data': [D1, D3, data(28, 2)], 'source.source.sample_freq': [100., 60.], 'source.start': [0, 3], 'source.stop': [None, 20], 'num_per_average': [2, 3]},
      lambda: ac.Average())
    pulses = np.zeros((120, 1))
    pulses[5::9] = 1.
    pulses[6::9] = 1.1
    pulses[100, 0] = .3
    pulses2 = np.zeros((120, 1))
    pulses2[5::11] = 2.
    pulses2[38, 0] = 2.

    def tsd(d, fs=100.):
        return ac.TimeSamples(data=d.copy(), sample_freq=fs)
    E('Trigger', {'source': [lambda: tsd(pulses), lambda: tsd(pulses2)], 'source.data': [pulses, pulses2], 'threshold': [.5, .1], 'trigger_type': ['dirac', 'rect'],
                  'max_variation_of_duration': [.5, .1], 'hunk_length': [.05, .2], 'multiple_peaks_in_hunk': ['extremum', 'first']},
      lambda: ac.Trigger(), lambda o: [*[A(x) for x in o.trigger_data]])
    pulses3, pulses4 = np.zeros((120, 1)), np.zeros((120, 1))
    pulses3[5::9] = 1.
    pulses4[5::11] = 2.
    E('AngleTracker', {'source.sample_freq': [100., 50.], 'trigger.source.data': [pulses3, pulses4], 'trigger.threshold': [.5, .1], 'trigger_per_revo': [1, 2], 'rot_direction': [-1, 1],
                       'interp_points': [4, 5], 'start_angle': [0., 1.]},
      lambda: ac.AngleTracker(source=tsd(pulses3), trigger=ac.Trigger(source=tsd(pulses3))), lambda o: [A(o.rpm), A(o.angle), A(o.average_rpm), stream(o)])
    R6, R5 = zoo.ring(6).pos_total, zoo.ring(6).pos_total * 2
    itp = {'source.data': [data(24, 6), data(24, 6, 1)], 'mics.pos_total': [R6, R5], 'method': ['linear', 'spline', 'sinc', 'rbf-cubic'], 'array_dimension': ['ring'], 'interp_at_zero': [False, True],
           'Q': [np.eye(3)]}
    E('SpatialInterpolator', {**itp, 'mics_virtual': [lambda: ac.MicGeom(pos_total=R6[:, ::-1]), lambda: ac.MicGeom(pos_total=.9 * R6)]},
      lambda: ac.SpatialInterpolator(source=tsr(24, 6), mics=zoo.ring(6)))
    xy = {'source.data': [data(24, 6), data(24, 6, 1)], 'mics.pos_total': [A([[-1., 0, 1, -1, 0, 1], [0, 0, 0, 1, 1, 1.3], [0.] * 6])],
          'mics_virtual': [lambda: ac.MicGeom(pos_total=A([[-.5, .2], [.5, .4], [0, 0.]])), lambda: ac.MicGeom(pos_total=A([[-.5, .4], [.6, .4], [0, 0.]]))],
          'num_IDW': [3, 4], 'p_weight': [2., 3.], 'interp_at_zero': [False]}
    for m in ('linear', 'spline', 'rbf-multiquadric', 'IDW', 'sinc'):
        E('SpatialInterpolatorConstantRotation.' + m, {**xy, 'method': [m], 'rotational_speed': [3.7, -2.]},
          lambda: ac.SpatialInterpolatorConstantRotation(source=tsr(24, 6), mics=zoo.ring(6), array_dimension='2D'), tol=1e-6)
    E('SpatialInterpolatorConstantRotation', {**itp, 'rotational_speed': [3.7, -2.]}, lambda: ac.SpatialInterpolatorConstantRotation(source=tsr(24, 6), mics=zoo.ring(6)))
    E('SpatialInterpolatorRotation', {**itp, 'angle_source.start_angle': [0., 1.], 'angle_source.trigger.threshold': [.5, .1]},
      lambda: ac.SpatialInterpolatorRotation(source=tsr(24, 6), mics=zoo.ring(6),
                                             angle_source=ac.AngleTracker(source=tsd(pulses3), trigger=ac.Trigger(source=tsd(pulses3)))))

    # ---- spectra ----------------------------------------------------------------------------------------------
    spo = {'source': [lambda: tsr(32), lambda: tsr(32, seed=1)], 'source.data': [data(32), data(32, seed=1), data(40, 2)], 'source.sample_freq': [100., 60.]}
    sp = {**spo, 'block_size': [8, 16], 'window': ['Rectangular', 'Hanning', 'Hamming'], 'overlap': ['None', '50%'], 'precision': ['complex128', 'complex64']}
    E('RFFT', {**sp, 'scaling': ['none', 'energy', 'amplitude']}, lambda: ac.RFFT())
    E('RFFT.auto', {**spo, 'block_size': [8, 4], 'window': ['Rectangular', 'Hanning']}, lambda: ac.RFFT())
    rf = {'source.' + k: v for k, v in sp.items() if k not in ('overlap',)}
    E('IRFFT', {**{k: v for k, v in rf.items() if 'window' not in k}, 'precision': ['float64', 'float32']}, lambda: ac.IRFFT(source=ac.RFFT(source=tsr(32))))
    E('AutoPowerSpectra', {**rf, 'scaling': ['power', 'psd'], 'single_sided': [True, False], 'precision': ['float64', 'float32']}, lambda: ac.AutoPowerSpectra(source=ac.RFFT(source=tsr(32))))
    E('CrossPowerSpectra', {**rf, 'scaling': ['power', 'psd'], 'single_sided': [True, False], 'precision': ['complex128', 'complex64'], 'calc_mode': ['full', 'upper', 'lower']},
      lambda: ac.CrossPowerSpectra(source=ac.RFFT(source=tsr(32))))
    E('Average.spectra', {'source.source.source.data': [data(32), data(40, 2)], 'source.source.block_size': [8, 4], 'num_per_average': [2, 3]},
      lambda: ac.Average(source=ac.CrossPowerSpectra(source=ac.RFFT(source=tsr(32)))))
    N1, N2 = noise().data, noise(seed=1).data
    ps = {'source': [noise, lambda: noise(seed=2)], 'source.data': [N1, N2, noise(200, 2).data], 'source.sample_freq': [8000., 6000.], 'block_size': [128, 256], 'window': ['Rectangular', 'Hanning'],
          'overlap': ['None', '50%'], 'precision': ['complex128', 'complex64'], 'ind_low': [1, 3], 'ind_high': [-1, 6]}
    spec = lambda o: [A(o.csm[:]), A(o.eva[:]), A(o.fftfreq()), A(o.freq_range), A(o.indices)]
    E('PowerSpectra', {**ps, 'cached': [True, False]}, lambda: ac.PowerSpectra(), spec, tol=1e-4, view=('ind_low', 'ind_high'))
    E('PowerSpectra.freq', {'source': [noise], 'source.sample_freq': [8000., 6000.], 'block_size': [128, 256], 'freq_range': [(0., 4000.), (300., 1000.)]}, lambda: ac.PowerSpectra(), spec, view=('freq_range',))
    C1 = np.random.RandomState(4).standard_normal((3, 2, 2)) + 0j
    C1 = C1 + C1.transpose(0, 2, 1)
    C2 = C1.copy()
    C2[0, 0, 0] += 1
    C2[1, 0, 0] -= 1
    E('PowerSpectraImport', {'csm': [C1, C2, 2 * C1], 'frequencies': [A([100., 200., 300.]), A([150., 250., 350.])], 'ind_low': [0, 1], 'ind_high': [-1, 1]},
      lambda: ac.PowerSpectraImport(), spec, view=('ind_low', 'ind_high'))

    # ---- beamformers -----------------------------------------------------------------------------------------------
    def bsrc(d=N1):
        return ac.PowerSpectra(source=ac.TimeSamples(data=d.copy(), sample_freq=8000.), block_size=128)

    def bsteer():
        return ac.SteeringVector(grid=grid(), mics=mg())
    bf = {'freq_data': [bsrc, lambda: bsrc(N2)], 'freq_data.block_size': [128, 256], 'freq_data.source.data': [N1, N2], 'freq_data.ind_low': [4, 5], 'freq_data.ind_high': [6, 8],
          'steer': [bsteer, lambda: ac.SteeringVector(grid=ac.LineGrid(num_points=6, loc=(-.2, 0, 1.)), mics=mg())], 'steer.steer_type': ['true level', 'classic'],
          'steer.mics.pos_total': [P3, Q3], 'steer.env.c': [343., 250.], 'steer.grid.z': [1., .5] , 'r_diag': [True, False], 'r_diag_norm': [0., 2.], 'precision': ['float64', 'float32'],
          'cached': [True, False]}
    bf = {k: v for k, v in bf.items() if k != 'steer.grid.z'}
    bo = lambda o: [A(o.result[o.freq_data.ind_low + 1]), A(o.synthetic(o.freq_data.fftfreq()[o.freq_data.ind_low], 0))]
    bo1 = lambda o: [A(o.result[o.freq_data.ind_low + 1])]

    def B(name, more, out=bo, tol=1e-3, kw=None, drop=()):
        E(name, {**{k: v for k, v in bf.items() if k not in drop}, **more}, lambda: getattr(ac, name.split('.')[0])(**(kw or {})), out, tol=tol)
    B('BeamformerBase', {})
    B('BeamformerBase.grid', {'steer.grid.z': [1., .5], 'steer.grid.increment': [.2, .1]}, kw={}, drop=('steer', 'freq_data'))
    ENTRIES['BeamformerBase.grid'].make = lambda: ac.BeamformerBase(steer=bsteer(), freq_data=bsrc())
    B('BeamformerFunctional', {'gamma': [1, 4]}, drop=('r_diag', 'r_diag_norm'))
    B('BeamformerCapon', {}, drop=('r_diag', 'r_diag_norm'))
    B('BeamformerEig', {'n': [-1, 1]})
    B('BeamformerMusic', {'n': [1, 2]}, drop=('r_diag', 'r_diag_norm'))
    B('BeamformerDamas', {'n_iter': [5, 9], 'damp': [1., .5], 'psf_precision': ['float64', 'float32'], 'calcmode': ['full', 'block']})
    B('BeamformerDamasPlus', {'method': ['NNLS', 'LassoLars', 'OMPCV'][:2], 'alpha': [0., .01], 'n_iter': [50, 3], 'unit_mult': [1e9, 1.]}, tol=1e-2, drop=('r_diag_norm',))
    B('BeamformerOrth', {'eva_list': [A([-1]), A([0, 1])]}, drop=())
    B('BeamformerCleansc', {'n_iter': [0, 1], 'damp': [.6, .9], 'stopn': [3, 1]})
    B('BeamformerClean', {'n_iter': [10, 2], 'damp': [.6, .9], 'psf_precision': ['float64', 'float32'], 'calcmode': ['full', 'block']})
    B('BeamformerCMF', {'method': ['NNLS', 'LassoLars'], 'alpha': [0., .01], 'n_iter': [50, 3], 'unit_mult': [1e9, 1.]}, tol=1e-2, drop=('r_diag_norm',), out=bo1)
    B('BeamformerSODIX', {'method': ['fmin_l_bfgs_b'], 'alpha': [0., .1], 'n_iter': [5, 2], 'unit_mult': [1e9, 1.]}, tol=5e-2, drop=('r_diag_norm', 'freq_data.block_size'), out=bo1)
    B('BeamformerGIB', {'method': ['Suzuki', 'LassoLars'], 'alpha': [0., .01], 'n_iter': [5, 2], 'unit_mult': [1e9, 1.], 'eps_perc': [.05, .3], 'pnorm': [1., 1.5], 'beta': [.9, .7], 'n': [1, 2], 'm': [0, 1]},
      tol=5e-2, drop=('r_diag_norm', 'r_diag'), out=bo1)
    B('BeamformerGridlessOrth', {'eva_list': [A([0]), A([0, 1])], 'bounds': [[(-1., 1.), (-1., 1.), (.01, 1.)], [(-1., 1.), (-1., 1.), (.5, 1.)]],
                                 'shgo': [{'n': 16, 'minimizer_kwargs': {'method': 'Nelder-Mead', 'options': {'maxiter': 4}}}, {'n': 8, 'minimizer_kwargs': {'method': 'Nelder-Mead', 'options': {'maxiter': 3}}}]},
      drop=('r_diag_norm', 'steer'), out=bo1, kw={})
    ENTRIES['BeamformerGridlessOrth'].weak = ('gpos', 'pos')        # written by the calculation
    ENTRIES['BeamformerGridlessOrth'].make = lambda: ac.BeamformerGridlessOrth(steer=bsteer())

    # ---- time-domain beamformers ---------------------------------------------------------------------------------------
    TD1, TD2 = data(40), data(40, seed=1)
    tb = {'source': [lambda: tsr(40, fs=1000.), lambda: tsr(40, seed=1, fs=1000.)], 'source.data': [TD1, TD2], 'source.sample_freq': [1000., 900.],
          'steer': [bsteer, lambda: ac.SteeringVector(grid=ac.LineGrid(num_points=6, loc=(-.2, 0, 1.)), mics=mg())], 'steer.steer_type': ['true level', 'classic'],
          'steer.mics.pos_total': [P3, Q3], 'steer.env.c': [343., 250.], 'weights': ['none', 'power']}
    rd = {'r_diag': [True, False]}
    mv = {'trajectory': [tr, lambda: tr(T2)], 'trajectory.points': [T1, T3], 'rvec': [A((0., 0, 0)), A((0., 0, 1.))], 'conv_amp': [False, True], 'precision': [64, 32]}
    cl = {'n_iter': [3, 2], 'damp': [1., .5]}
    for n, m in (('BeamformerTime', {}), ('BeamformerTimeSq', rd), ('BeamformerTimeTraj', mv), ('BeamformerTimeSqTraj', {**mv, **rd}), ('BeamformerCleant', cl),
                 ('BeamformerCleantSq', {**cl, **rd}), ('BeamformerCleantTraj', {**cl, **mv}), ('BeamformerCleantSqTraj', {**cl, **mv, **rd})):
        E(n, {**tb, **m}, lambda n=n: getattr(ac, n)(), lambda o: stream(o, 16), tol=1e-4)
    SD = abs(data(24, 9))
    E('IntegratorSectorTime', {'source.data': [SD, abs(data(24, 9, 1))], 'grid.x_max': [2., 2.4], 'sectors': [[A([0., 0., 1.1])], [A([0., 0., 2.]), A([0., 0., 1., 1.])]], 'clip': [-350., -2.]},
      lambda: ac.IntegratorSectorTime(source=ac.TimeSamples(data=SD.copy(), sample_freq=100.), grid=ac.RectGrid(x_min=0, x_max=2, y_min=0, y_max=2, increment=1.)))
    return ENTRIES

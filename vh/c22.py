"""C22: signal generators."""
import contextlib
import io
import warnings
import numpy as np
from vh import common, zoo


def ints(a, s=1.):
    return np.clip(np.rint(np.asarray(a, float) * s), -2e9, 2e9).astype(np.int64).tolist()


def run(ctx):
    common.assert_repo()
    zoo.build()
    ac = zoo.ac
    warnings.simplefilter('ignore')
    q = common.quick()
    rng = np.random.RandomState(common.SEED + 220)
    ctx.tlc('SignalsMC', 'SPECIFICATION Spec\nINVARIANTS Same Odd Unit\nCONSTANTS MaxLen = %d MaxN = %d MaxBlock = %d\n' % ((7, 20, 8) if q else (16, 40, 17)))
    traces = []

    def case(key, desc, f):
        ev = []

        def emit(**e):
            e.setdefault('x0', '')
            ev.append(e)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                f(emit)
        except Exception as x:  # noqa: BLE001
            ev.append({'op': 'same', 'x0': repr(x)[:150]})
        traces.append({'key': key, 'desc': desc, 'ev': ev})

    def sizes():
        return int(rng.choice([1, 2, 3, 5, 8, 30, 31, 64, 100]))

    def common_laws(emit, make, n, change, up=True):
        """repeatable, after other calls and by other objects; amplitude; upsampled"""
        g = make()
        a = ints(g.signal(), 1e4)
        if up:
            f = int(rng.choice([1, 2, 3, 4, 7]))
            u = g.usignal(f)
            emit(op='up', n=n, f=f, out=a, up=ints(u, 1e4))
        s = g.signal()
        s *= 3      # of no concern to the next call
        emit(op='same', n=n, out=ints(g.signal(), 1e4), ref=a)
        emit(op='same', n=n, out=ints(make().signal(), 1e4), ref=a)
        k = int(rng.choice([2, 3, -4, 7]))
        change(g, k)
        emit(op='scale', n=n, k=k, x=a, out=ints(g.signal(), 1e4))
        m = sizes()
        g.num_samples = m
        emit(op='up', n=m, f=1, out=ints(g.signal(), 1e4), up=ints(g.usignal(1), 1e4))
    N = 3 if q else 20
    for _ in range(40 * N):
        n, amp, k0, dk = sizes(), int(rng.randint(1, 100)), int(rng.randint(0, 12)), int(rng.randint(0, 12))
        fs = float(rng.choice([1, 12, 44100, 51200, 1.5]))

        def f(emit):
            def make():
                return ac.SineGenerator(num_samples=n, sample_freq=fs, freq=fs * dk / 12, phase=np.pi * k0 / 6, amplitude=amp)
            emit(op='sine', n=n, amp=amp, k0=k0, dk=dk, out=ints(make().signal(), 1e3))
            common_laws(emit, make, n, lambda g, k: g.trait_set(amplitude=amp * k), up=True)
        case('sine', f'sine {n} samples amplitude {amp} phase {k0}/12 frequency {dk}/12 of {fs}', f)
    for _ in range(60 * N):
        L = int(rng.choice([1, 2, 3, 5, 7, 20, 1023, 1024, 1025, 2048, 2100])) if rng.rand() < .7 else int(rng.randint(1, 40))
        n = int(rng.choice([0, 1, L - 1, L, L + 1, 2 * L, 2 * L + 1, 3 * L - 1, 5, 1024, 2500]))
        c, loop, amp = int(rng.randint(1, 3)), bool(rng.randint(2)), int(rng.choice([1, 2, -3, 10]))
        x = rng.randint(-50, 51, size=(L, c))

        def f(emit):
            def make():
                g = ac.GenericSignalGenerator(source=ac.TimeSamples(data=x * 1., sample_freq=100.), loop_signal=loop, amplitude=amp)
                if n > 0:
                    g.num_samples = n
                return g
            m = n or L
            g = make()
            emit(op='loop', n=m, x=x[:, 0].tolist(), loop=loop, amp=amp, out=ints(g.signal()))
            if m < 200:
                common_laws(emit, make, m, lambda g, k: g.trait_set(amplitude=amp * k))
            # other length and other mode afterwards
            g.loop_signal = not loop
            g.num_samples = int(rng.randint(1, 3 * L + 2))
            emit(op='loop', n=int(g.num_samples), x=x[:, 0].tolist(), loop=not loop, amp=amp, out=ints(g.signal()))
            g.num_samples = 0       # as the recording
            emit(op='loop', n=L, x=x[:, 0].tolist(), loop=not loop, amp=amp, out=ints(g.signal()))
        case('generic', f'recording of {L} of {c} channels for {n} samples, loop {loop}, amplitude {amp}', f)
    for _ in range(40 * N):
        n, seed = sizes(), int(rng.randint(0, 1000))
        kind = rng.choice(['white', 'pink', 'filtered'])
        ma = rng.randint(-8, 9, size=rng.choice([1, 2, 3, 4, 5, 6]))
        ma[0] = ma[0] or 8
        # stable denominators: products of (1 - p z^-1) with p in eighths
        ar = np.array([1.])
        for _ in range(rng.randint(0, 3)):
            ar = np.convolve(ar, [1., rng.randint(-6, 7) / 8.])
        use_ma, use_ar = rng.randint(3) > 0, len(ar) > 1
        depth = int(rng.randint(0, 6))

        def f(emit):
            def make(s=seed, r=1.):
                kw = dict(num_samples=n, sample_freq=1000., seed=s, rms=r)
                if kind == 'white':
                    return ac.WNoiseGenerator(**kw)
                if kind == 'pink':
                    kw['num_samples'] = n
                    return ac.PNoiseGenerator(depth=depth, **kw)
                g = ac.FiltWNoiseGenerator(**kw)
                if use_ma:
                    g.ma = ma / 8.
                if use_ar:
                    g.ar = ar
                return g
            if kind == 'filtered':
                m = ma if use_ma else np.array([8])
                d = round(.5 * (len(m) - 1))
                w = ac.WNoiseGenerator(num_samples=n + d, sample_freq=1000., seed=seed, rms=1.).signal()
                a = (ar if use_ar else np.array([1.])) * 512
                # the delay of the specification is half the length, that of the generator is rounded to even
                x = np.r_[np.zeros(len(m) // 2 - d), w]
                emit(op='filter', n=n, x=ints(x, 1e3), ar=ints(a), ma=ints(m * 64.), out=ints(make().signal(), 1e3))
            common_laws(emit, make, n, lambda g, k: g.trait_set(rms=float(k)))
            if n > 3:
                emit(op='other', n=n, out=ints(make(s=seed + 1).signal(), 1e4), ref=ints(make().signal(), 1e4))
        case(str(kind), f'{kind} noise {n} samples seed {seed} depth {depth} ma {ma.tolist() if use_ma else []} ar {ar.tolist() if use_ar else []}', f)
    for _ in range(4 * N):
        seed, r, depth = int(rng.randint(0, 1000)), float(rng.choice([.5, 2, 10])), int(rng.randint(1, 5))

        def f(emit):
            s = ac.WNoiseGenerator(num_samples=4000, sample_freq=1000., seed=seed, rms=r).signal()
            emit(op='rms', n=4000, out=[0] * len(s), ms=ints([np.sqrt(np.mean(s ** 2))], 1e4)[0], want=ints([r], 1e4)[0], tol=10)
            s = ac.PNoiseGenerator(num_samples=8000, sample_freq=1000., seed=seed, rms=r, depth=depth).signal()
            emit(op='rms', n=8000, out=[0] * len(s), ms=ints([np.sqrt(np.mean(s ** 2))], 1e4)[0], want=ints([r], 1e4)[0], tol=30)
        case('rms', f'root mean square {r} seed {seed} depth {depth}', f)
    for t in traces[:: max(1, len(traces) // 7)]:
        ctx.sample({'case': t['desc'], 'last': str(t['ev'][-1])[:150]})
    bad = ctx.check_traces('SignalsTrace', traces)
    ctx.report_bad(bad, lambda t, e, c: f"{t['key']}.{t['ev'][e - 1]['op']}|{c}")
    ctx.extra['operations'] = {o: sum(e['op'] == o for t in traces for e in t['ev']) for o in sorted({e['op'] for t in traces for e in t['ev']})}
    ctx.assumptions = ['sines at twelfths of the sampling rate and of a turn', 'noise is the one of the white noise generator with the same seed', 'spectra of noise are not examined']

"""C25: responses of band filters, frequency and time weightings, filter banks."""
import contextlib
import io
import warnings
import numpy as np
from vh import common, zoo

RATIOS = [(10, 9), (9, 10), (8, 7), (7, 8), (6, 5), (5, 6), (4, 3), (3, 4), (7, 5), (5, 7), (21, 20), (20, 21), (3, 2), (2, 3)]


def ints(a, s=1.):
    return np.clip(np.nan_to_num(np.rint(np.asarray(a, float) * s), nan=-2e9), -2e9, 2e9).astype(np.int64).tolist()


def run(ctx):
    common.assert_repo()
    zoo.build()
    ac = zoo.ac
    warnings.simplefilter('ignore')
    q = common.quick()
    rng = np.random.RandomState(common.SEED + 250)
    ctx.tlc('FiltersMC', 'SPECIFICATION Spec\nINVARIANTS Centre Symmetric Decreasing Steeper Narrower Bounded Tiles\nCONSTANTS MaxR = %d Steps = %d\n' % ((12, 8) if q else (40, 12)))
    traces = []

    def src(x, fs):
        return ac.TimeSamples(data=np.array(x, float).reshape(len(x), -1), sample_freq=float(fs))

    def read(o, num):
        return np.concatenate([b.copy() for b in o.result(num)])

    def gain(h, f, fs):
        return np.abs(np.exp(-2j * np.pi * np.outer(f, np.arange(len(h))) / fs) @ h)

    def case(key, desc, init, body):
        ev = []

        def emit(op, fn=None, **e):
            e.update(op=op, x='')
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    e.update((fn() if fn else None) or {})
            except Exception as x:  # noqa: BLE001
                e['x'] = type(x).__name__
            ev.append(e)
        body(emit)
        traces.append({'key': key, 'desc': desc, 'init': init, 'ev': ev})
    N = 1 if q else 12
    for i in range(40 * N):
        both = i % 2 == 1
        fs = float(rng.choice([12800, 25600, 48000]))
        L = 24000

        def settings():
            F, n = int(rng.choice([1, 3])), int(rng.randint(1, 7))
            # narrow bands and high orders are limited by arithmetic, wide ones by the sampling theorem
            return {'F': F, 'n': n, 'both': both}, float(fs / rng.choice([32, 40, 64, 100.5] if n > 1 else [64, 100.5]))
        st, band = settings()
        names = {1: 'Octave', 3: 'Third octave'}

        def body(emit):
            nonlocal st, band
            x = np.zeros(L)
            mid = L // 2 if both else 0
            x[mid] = 1
            cls = ac.FiltFiltOctave if both else ac.FiltOctave
            o = cls(source=src(x, fs))
            for step in range(3):
                change = dict(band=band, fraction=names[st['F']], order=st['n'])
                for k in rng.permutation(list(change)):
                    setattr(o, k, change[k])
                    if rng.rand() < .3:
                        o.sos, o.digest   # noqa: B018
                emit('set', s=dict(st))

                def look():
                    h = read(o, int(rng.choice([100, 1000, 5000, 30000])))[:, 0]
                    at = RATIOS[:]
                    far = [band * f for f in (2 ** .5, 2, 2.83, 4, 5.6)]
                    near = [band / f for f in (2 ** .5, 2, 2.83, 4, 5.6)]
                    w = 2 ** (.5 / st['F'])
                    del w
                    tail = np.maximum(gain(h, far, fs), gain(h, near, fs))
                    k = min(mid, L - 1 - mid)
                    return {'energy': ints([np.sum(h * h) * fs / 2 / band], 1e4)[0], 'centre': ints(gain(h, [band], fs), 1e4)[0],
                            'at': at, 'g2': ints(gain(h, [band * a / b for a, b in at], fs) ** 2, 1e4), 'tail': ints(tail, 1e4),
                            'fwd': ints(h[mid:mid + 2000], 1e6) if both else [], 'bwd': ints(h[mid - 1999:mid + 1][::-1], 1e6) if both else []}
                emit('octave', look)
                st, band = settings()
            o.band = fs * .36
            emit('high', lambda: {'n': len(read(o, 1000))})
        case('filtfilt' if both else 'octave', f'{"zero phase" if both else "octave"} filter at {fs}', dict(st), body)
    # frequency weightings
    for _ in range(6 * N):
        fs = float(rng.choice([80000, 100000]))
        ws = rng.permutation(['A', 'C', 'Z']).tolist()

        def body(emit):
            x = np.zeros(int(fs * .4))
            x[0] = 1
            o = ac.FiltFreqWeight(source=src(x, fs), weight='A')
            for w in ws + ws[:1]:
                o.weight = w
                emit('set', s={'w': w})
                if w == 'Z':
                    y = rng.randint(-9, 10, size=(50, 2))
                    emit('same', lambda: {'out': ints(read(ac.FiltFreqWeight(source=src(y, fs), weight='Z'), 7), 1e6), 'ref': ints(y, 1e6)}, what='Z changes nothing')

                def look():
                    h = read(o, int(rng.choice([1000, 4096])))[:, 0]
                    k = list(range(13, 38))
                    return {'k': k, 'db': ints(20 * np.log10(gain(h, [10 ** (i / 10) for i in k], fs)), 100)}
                emit('weight', look)
        case('weighting', f'frequency weighting {ws} at {fs}', {'w': 'A'}, body)
    # time weightings
    for _ in range(6 * N):
        fs, ws = float(rng.choice([1600, 3200, 8000])), rng.permutation(['F', 'S', 'I']).tolist()

        def body(emit):
            lv = int(rng.choice([1, 5, -3]))
            o = ac.TimeExpAverage(source=src(np.full(int(fs * 2.1), lv), fs), weight='I')
            for w in ws + ws[:1]:
                o.weight = w
                T = {'F': 1000, 'S': 8000, 'I': 280}[w] * fs / 8000

                def look():
                    y = np.r_[0, read(o, int(rng.choice([100, 1024])))[:, 0] / lv]
                    return {'v': ints([y[int(round(k * T / 8))] for k in range(17)], 1e6)}
                emit('set', s={'w': w})
                emit('step', look)
        case('average', f'time weighting {ws} at {fs}', {'w': 'I'}, body)
    # banks, linearity, independent channels
    for _ in range(20 * N):
        fs = float(rng.choice([51200, 200000]))
        nc = int(rng.randint(1, 4))
        y = rng.randint(-9, 10, size=(int(rng.randint(20, 200)), nc))

        def bank():
            F = int(rng.choice([1, 3]))
            lo = int(rng.randint(15, 38))
            return {'lo': lo, 'hi': min(43, int(lo + rng.randint(1, 8))), 'F': F}
        s0 = bank()
        names = {1: 'Octave', 3: 'Third octave'}

        def body(emit):
            o = ac.OctaveFilterBank(source=src(y, fs))
            s = s0
            for _k in range(3):
                o.trait_set(lband=s['lo'], hband=s['hi'], fraction=names[s['F']])
                emit('set', s=dict(s))

                def look():
                    b = ints(10 * np.log10(o.bands), 1)
                    out = read(o, int(rng.choice([8, 50, 300])))
                    ref = np.hstack([read(ac.FiltOctave(source=src(y, fs), band=f, fraction=names[s['F']]), 64) for f in o.bands])
                    return {'bands': b, 'num': o.num_bands, 'nch': o.num_channels, 'src': nc, 'out': ints(out, 1e6), 'ref': ints(ref, 1e6)}
                emit('bank', look)
                s = bank()
        case('bank', f'filter bank {s0} of {nc} channels', dict(s0), body)
        kinds = {'octave': lambda z: ac.FiltOctave(source=src(z, fs), band=fs / 20, order=2), 'zero phase': lambda z: ac.FiltFiltOctave(source=src(z, fs), band=fs / 20),
                 'weighting': lambda z: ac.FiltFreqWeight(source=src(z, fs), weight='A'), 'average': lambda z: ac.TimeExpAverage(source=src(z, fs), weight='I')}
        k = str(rng.choice(list(kinds)))

        def linear(emit):
            z = rng.randint(-9, 10, size=y.shape)
            y2 = np.vstack([y, np.zeros((60, nc))])
            z2 = np.vstack([z, np.zeros((60, nc))])
            f = kinds[k]
            emit('same', lambda: {'out': ints(read(f(y2 + 3 * z2), 16), 1e5), 'ref': ints(np.rint(read(f(y2), 1000) * 1e5 + 3e5 * read(f(z2), 7)))}, what='superposition')
            emit('same', lambda: {'out': ints(read(f(y2), 16)[:, -1], 1e5), 'ref': ints(read(f(y2[:, -1:]), 9)[:, 0], 1e5)}, what='channels of their own')
        case('linear.' + k, f'{k} {y.shape}', {'w': 'A'}, linear)
    for t in traces[:: max(1, len(traces) // 7)]:
        ctx.sample({'case': t['desc'], 'last': str(t['ev'][-1])[:150]})
    bad = ctx.check_traces('FiltersTrace', traces)
    ctx.report_bad(bad, lambda t, e, c: f"{t['key']}.{t['ev'][e - 1]['op']}|{c}")
    ctx.extra['operations'] = {o: sum(e['op'] == o for t in traces for e in t['ev']) for o in sorted({e['op'] for t in traces for e in t['ev']})}
    ctx.assumptions = ['bands up to a thirty-second of the sample frequency', 'weightings to 0.1 dB, up to a fortieth of the sample frequency', 'power bandwidth to 1 (zero phase: 2.2) percent, for the first order to 8 percent']

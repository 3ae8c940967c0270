"""C07: overlapping windows: RFFT, power spectra, cross spectral matrix, inverse transform, sample buffer."""
import numpy as np
from vh import common, zoo
from vh.c06 import BAD

OV = {'None': 1, '50%': 2, '75%': 4, '87.5%': 8}
WIN = {'Rectangular': np.ones, 'Hanning': np.hanning, 'Hamming': np.hamming, 'Bartlett': np.bartlett,
       'Blackman': np.blackman}


def rint(a, tol=1e-6):
    a = np.asarray(a)
    r = np.rint(a)
    return np.where(np.abs(a - r) <= tol * (1 + np.abs(a)), r, BAD).astype(np.int64)


def cint(a, tol=1e-6):
    """complex array -> nested lists with [re, im] at the end"""
    return np.stack([rint(np.real(a), tol), rint(np.imag(a), tol)], axis=-1).tolist()


def run(ctx):
    common.assert_repo()
    zoo.build()
    ac = zoo.ac
    q = common.quick()
    r = np.random.RandomState(common.SEED + 70)
    ctx.tlc('WindowsMC', 'SPECIFICATION Spec\nINVARIANT Good\nCONSTANTS MaxN = %d Sizes = {2, 4, 6, 8, 12, 14} Ovs = {1, 2, 4, 8}\n'
            % (40 if q else 80))
    traces = []

    def src(x, fs=100.):
        return ac.TimeSamples(data=np.array(x, dtype=float), sample_freq=fs)

    def add(key, desc, f, **ev):
        ev.setdefault('x', '')
        try:
            with common.limit():
                ev.update(f())
        except Exception as e:  # noqa: BLE001
            ev['x'] = repr(e)[:120]
        traces.append({'key': key, 'desc': f'{key} {desc}', 'ev': [ev]})

    def read(o, num):
        bl = [np.array(b) for b in o.result(num)]
        return np.concatenate(bl) if bl else np.zeros((0, 1))

    def three(a, bs, nch):
        """(windows, freqs*ch) -> (windows, 3, ch)"""
        nf = bs // 2 + 1
        return a.reshape(len(a), nf, nch)[:, [0, bs // 4, bs // 2]] if len(a) else np.zeros((0, 3, nch))
    # --- RFFT and what is built on it
    for bs in (4, 8, 12):
        for ovn, ov in OV.items():
            lens = [bs - 1, bs, bs + 1, 2 * bs - 1, 2 * bs, 3 * bs + bs // 2, 5 * bs + 1]
            if not q:
                lens = list(range(1, 6 * bs + 2))
            for n in lens:
                for num in ((1, 3, 64) if q else (1, 2, 3, 4, 64)):
                    c = int(r.choice([1, 2, 3]))
                    x = r.randint(-9, 10, size=(n, c))
                    d = f'n={n} c={c} block_size={bs} overlap={ovn} block={num}'
                    com = dict(d=x.tolist(), bs=bs, ov=ov)

                    def rf(scaling='none', **kw):
                        return ac.RFFT(source=src(x), block_size=bs, overlap=ovn, scaling=scaling, **kw)
                    sc = ['none', 'energy', 'amplitude'][r.randint(3)]
                    k = bs if sc == 'amplitude' else 1
                    add('RFFT.' + sc, d, lambda: {'out': cint(three(read(rf(sc), num), bs, c) * k)}, op='rfft',
                        sided=sc != 'none', **com)
                    single = bool(r.rand() < .5)
                    add('AutoPowerSpectra', d + f' single_sided={single}', lambda: {'out': rint(three(read(ac.AutoPowerSpectra(
                        source=rf(), single_sided=single), num), bs, c) * bs ** 2 / (2 if single else 1)).tolist()}, op='power', **com)
                    add('AutoPowerSpectra.psd', d, lambda: {'out': rint(three(read(ac.AutoPowerSpectra(
                        source=rf(), scaling='psd', single_sided=False), num), bs, c) * bs / 100.).tolist()}, op='power', **com)
                    for mode in ('full', 'upper', 'lower'):
                        nc = c * c if mode == 'full' else c * (c + 1) // 2
                        add('CrossPowerSpectra.' + mode, d, lambda: {'out': cint(three(read(ac.CrossPowerSpectra(
                            source=rf(), calc_mode=mode), num), bs, nc) * bs ** 2 / 2)}, op='cross', mode=mode, **com)
                    add('IRFFT', d, lambda: {'out': rint(read(ac.IRFFT(source=rf()), num)[:, :]).tolist()
                                             if n >= bs else rint(np.zeros((0, 1))).tolist()}, op='back', **com)
                    # one time block per read of the inverse transform
                    add('IRFFT.bs', d, lambda: {'out': rint(read(ac.IRFFT(source=rf()), bs)).tolist()}, op='back', **com)
                    wn = ['Hanning', 'Hamming', 'Bartlett', 'Blackman'][r.randint(4)]
                    w = WIN[wn](bs)
                    row = int(r.randint(n))
                    y = np.zeros((n, 1))
                    y[row] = 1.
                    for scal in ('none', 'amplitude'):
                        s = 1 / np.sqrt((w ** 2).sum() / bs) if scal == 'none' else 1 / w.sum()
                        if bs == 4 and wn == 'x':
                            continue
                        add(f'RFFT.window.{scal}', d + f' {wn} impulse at {row}', lambda: {'out': rint(np.real(three(read(ac.RFFT(
                            source=src(y), block_size=bs, overlap=ovn, window=wn, scaling=scal), num), bs, 1)[:, 0, 0]) * 1e5,
                            1).tolist()}, op='impulse', n=n, r=row, w=np.rint(w * s * 1e5).astype(int).tolist(), bs=bs, ov=ov)
    # --- the cross spectral matrix
    for bs in ((128,) if q else (128, 256)):
        for ovn, ov in OV.items():
            lens = [bs, bs + bs // 8, 2 * bs, 2 * bs + bs // 2, 3 * bs, 3 * bs + 5, 4 * bs - 1]
            if not q:
                lens += [5 * bs, 5 * bs + 3 * bs // 4, 5 * bs + 7, 7 * bs + 1]
            for n in lens:
                for prec in ('complex128', 'complex64'):
                    c = int(r.choice([1, 2, 3]))
                    x = r.randint(-9, 10, size=(n, c))
                    whole = ((n - bs) * ov) % bs == 0
                    d = f'n={n} c={c} block_size={bs} overlap={ovn} {prec}'
                    hold = {}

                    def f():
                        p = ac.PowerSpectra(source=src(x), block_size=bs, overlap=ovn, precision=prec, cached=False)
                        csm = np.array(p.csm)
                        nb = p.num_blocks
                        hold['nb'] = nb
                        eva, eve = np.array(p.eva), np.array(p.eve)
                        sc = np.abs(csm).max() + 1e-300
                        tol = 1e-9 if prec == 'complex128' else 1e-3
                        rec = np.einsum('fik,fk,fjk->fij', eve, eva, eve.conj())
                        fl = {'hermitian': bool(np.abs(csm - csm.conj().transpose(0, 2, 1)).max() <= tol * sc),
                              'eigen': bool(np.abs(rec - csm).max() <= tol * sc and (np.diff(eva, axis=1) >= -tol * sc).all())}
                        o = csm[[0, bs // 4, bs // 2]].astype('complex128') * nb * bs ** 2 / 2
                        if prec == 'complex64':
                            ref = np.abs(o)
                            o = np.where(ref < 2e5, o, o)
                        return {'out': cint(o, 1e-6 if prec == 'complex128' else 2e-4) if prec == 'complex128' else
                                cint(np.rint(o.real) + 1j * np.rint(o.imag)), 'flags': fl}
                    if prec == 'complex64':
                        x = np.sign(x)    # small sums are exact in single precision
                    add('PowerSpectra.csm', d, f, op='csm', d=x.tolist(), bs=bs, ov=ov, flags={'hermitian': True, 'eigen': True})
                    nb = hold.get('nb', -1)
                    add('PowerSpectra.num_blocks' + ('' if whole else '.incomplete last window'), d,
                        lambda: {'nb': int(nb), 'whole': bool(nb == int(nb))}, op='blocks', n=n, bs=bs, ov=ov)
                wn = ['Hanning', 'Hamming', 'Bartlett', 'Blackman'][r.randint(4)]
                w = WIN[wn](bs)
                row = int(r.randint(n))
                y = np.zeros((n, 1))
                y[row] = 1.

                def f2():
                    p = ac.PowerSpectra(source=src(y), block_size=bs, overlap=ovn, window=wn, cached=False)
                    v = np.array(p.csm)[:, 0, 0]
                    if np.abs(v - v[0]).max() > 1e-9 * (np.abs(v[0]) + 1e-30):
                        return {'out': BAD}
                    return {'out': int(np.rint(v[0].real * p.num_blocks * bs * (w ** 2).sum() / 2 * 1e6))}
                add('PowerSpectra.window', f'n={n} {wn} {ovn} impulse at {row}', f2, op='impulsecsm', n=n, r=row,
                    w=np.rint(w ** 2 * 1e6).astype(int).tolist(), bs=bs, ov=ov)
    # --- the sample buffer
    cfgs = []
    for n in ((1, 7, 20, 33) if q else range(1, 40)):
        for num in (1, 2, 3, 5, 8):
            for snum in (None, 1, 3, 4):
                for rn, sh in ((None, 'result_num'), (3, 'result_num'), (6, 'num'), (num, 'num'), (num + 4, 'num')):
                    cfgs.append((n, num, snum, rn, sh))
    for n, num, snum, rn, sh in (cfgs if not q else ctx.rng.sample(cfgs, 260)):
        rnum = num if rn is None else rn
        shift = rnum if sh == 'result_num' else num
        length = 2 * max(rnum, num, snum or num)
        if rnum < shift:
            continue
        x = np.arange(1., n + 1)[:, None]

        def f3():
            o = ac.process.SamplesBuffer(source=src(x), length=length, source_num=snum, result_num=rn, shift_index_by=sh)
            return {'out': [np.rint(b[:, 0]).astype(int).tolist() for b in o.result(num)]}
        add('SamplesBuffer', f'n={n} block={num} source_num={snum} result_num={rn} shift={sh} length={length}', f3, op='buffer', n=n,
            rnum=rnum, shift=shift)
    for t in traces[:: len(traces) // 7]:
        ctx.sample({'case': t['desc'], 'out': str(t['ev'][0].get('out', t['ev'][0].get('nb')))[:90]})
    ctx.report_bad(ctx.check_traces('WindowsTrace', traces))
    ctx.extra['kinds'] = sorted({t['key'] for t in traces})
    ctx.assumptions = ['integer data; spectra are compared at 0, fs/4 and fs/2, where they are exact integers',
                       'window functions are checked by the response to an impulse, to 1e-5', 'buffer at least twice as long as a block']

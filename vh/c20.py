"""C20: files of time histories, geometries and spectra."""
import os, tempfile, warnings, wave
from pathlib import Path
import numpy as np
from vh import common, zoo, forks

NIL = 99999999
SRC = [(7, 2, NIL), (4, 3, NIL), (6, 1, 5), (13, 2, NIL), (9, 2, 9)]
FS = [51200., 100.5, 44100., 8000., .75]
LIBS = ['pytables', 'h5py']
CFG = ('SPECIFICATION Spec\nINVARIANTS Prefix Complete Stored EmitHist\nCONSTANTS Lens = {%s} Nums = {%s} Lims = {%s} NF = %d MaxOps = %d Emit = %s\n')


class Boom(RuntimeError):
    pass


def runs(blocks):
    """rows as runs <<first row, number of rows>> of rows growing by 100"""
    a = np.concatenate(blocks) if blocks else np.zeros((0, 1))
    out = []
    for r in a:
        if out and np.array_equal(r, out[-1][0] + 100. * out[-1][1]):
            out[-1][1] += 1
        else:
            out.append([r, 1])
    return [[[int(v) if v == int(v) else -1 for v in np.clip(np.nan_to_num(r, nan=-5), -2e9, 2e9)], n] for r, n in out[:50]]


def src_class():
    ac = zoo.ac
    from traits.api import Int, Property

    class Src(ac.SamplesGenerator):
        s, n, c, fail = Int(1), Int(1), Int(1), Int(NIL)
        digest = Property(depends_on=['s', 'n', 'c', 'fail'])

        def _get_digest(self):
            return f'src{self.s}{self.n}{self.c}{self.fail}'

        def result(self, num):
            for i in range(0, self.n, num):
                if self.fail <= i + num:
                    raise Boom
                j = np.arange(i, min(i + num, self.n))
                yield 1e6 * self.s + 100. * (j[:, None] + 1) + np.arange(1, self.c + 1)
    return Src


class Driver:
    def __init__(self, d, rng, spec, fs, prec, extra=None):
        self.d, self.rng, self.prec, self.ev = Path(d), rng, prec, []
        Src = src_class()
        self.src = [Src(s=i + 1, n=n, c=c, fail=f, sample_freq=x, num_samples=n, num_channels=c) for i, ((n, c, f), x) in enumerate(zip(spec, fs))]
        self.info = [{'n': n, 'c': c, 'fail': f, 'fs': repr(float(x))} for (n, c, f), x in zip(spec, fs)]
        self.w = self.g = None
        self.meta = extra or {}
        self.uses_meta = bool(extra)

    def file(self, f):
        return str(self.d / f'a{f}.h5')

    def writer(self, f, s, lim=-1):
        ac = zoo.ac
        w = ac.WriteH5(source=self.src[s - 1], file=self.file(f), precision=self.prec, num_samples_write=lim)
        if self.uses_meta:
            w.metadata = dict(self.meta)
        return w

    def op(self, op, a):
        e = {'op': op, 'a': list(a), 'x': '', 'kind': '', 'out': []}
        ac = zoo.ac
        try:
            if op == 'open':
                self.w = self.writer(a[0], a[1], -1 if a[3] == NIL else a[3])
                self.g = self.w.result(a[2])
            elif op == 'next':
                try:
                    e.update(out=runs([next(self.g)]), kind='block')
                except StopIteration:
                    e['kind'] = 'end'
                except Boom:
                    e['kind'] = 'fail'
            elif op == 'drop':
                self.g.close()
                self.g = self.w = None
            elif op == 'flag':
                self.w.write_flag = False
            elif op == 'save':
                try:
                    self.writer(a[0], a[1]).save()
                    e['kind'] = 'end'
                except Boom:
                    e['kind'] = 'fail'
            elif op == 'lib':
                ac.config.h5library = LIBS[a[0]]
            elif op == 'crash':
                def session(emit):
                    g = self.writer(a[0], a[1]).result(a[2])
                    try:
                        for _ in range(a[3]):
                            next(g)
                    except (StopIteration, Boom):
                        pass
                    os._exit(9)
                _, rc = forks.child(session)
                if rc != 9:
                    e['x'] = f'process ended with {rc}'
            elif op == 'read':
                return self.read(a[0])
        except Exception as x:  # noqa: BLE001
            e['x'] = repr(x)[:150]
        self.ev.append(e)

    def read(self, f):
        """with either library, as a whole or masked"""
        ac = zoo.ac
        lib = ac.config.h5library
        rows = int(self.rng.randint(1, 17))
        for way in range(3):
            e = {'op': 'read', 'a': [f], 'x': '', 'kind': 'block', 'out': [], 'start': 0, 'stop': NIL, 'inv': [], 'ns': 0, 'nc': 0, 'fs': '', 'dtype': ''}
            t = None
            try:
                ac.config.h5library = LIBS[way] if way < 2 else lib
                if way < 2:
                    t = ac.TimeSamples(file=self.file(f))
                else:
                    e.update(start=int(self.rng.randint(0, 4)), stop=int(self.rng.choice([4, 5, 6, NIL])))
                    t = ac.MaskedTimeSamples(file=self.file(f), start=e['start'], stop=None if e['stop'] == NIL else e['stop'])
                    if t.num_channels_total > 1 and self.rng.randint(2):
                        e['inv'] = [int(self.rng.randint(1, t.num_channels_total + 1))]
                        t.invalid_channels = [e['inv'][0] - 1]
                try:
                    b = [np.array(x) for x in t.result(rows)]
                    e.update(out=runs(b), ns=int(t.num_samples), nc=int(t.num_channels), fs=repr(float(t.sample_freq)), dtype=str(b[0].dtype) if b else '')
                except OSError as x:
                    if 'amples' not in str(x) and 'hannels' not in str(x):
                        raise
                    e['kind'] = 'none'
                self.ev.append(e)
                if self.uses_meta:
                    self.ev.append({'op': 'same', 'x': '', 'want': {k: show(v) for k, v in self.meta.items()},
                                    'got': {k: show(v) for k, v in t.metadata.items() if k not in ('CLASS', 'TITLE', 'VERSION')}})
            except Exception as x:  # noqa: BLE001
                e['x'] = repr(x)[:150]
                self.ev.append(e)
            finally:
                if t is not None and t.h5f is not None:
                    t.h5f.close()
        ac.config.h5library = lib

    def trace(self, key, desc):
        if self.g is not None:
            self.g.close()
        return {'key': key, 'desc': desc, 'src': self.info, 'prec': self.prec, 'ev': self.ev}


def show(v):
    """values of metadata as stored: texts as UTF-8"""
    if hasattr(v, 'read'):
        v = v.read()
    elif hasattr(v, 'shape') and not isinstance(v, (np.ndarray, np.generic)):
        v = v[()]
    if isinstance(v, np.ndarray) and v.shape == ():
        v = v[()]
    if isinstance(v, bytes):
        v = v.decode('utf-8', 'replace')
    if isinstance(v, str):
        return 'text:' + v.encode('unicode_escape').decode()
    a = np.asarray(v)
    return f'{a.shape}' + ','.join(float(x).hex() for x in a.ravel())


def hexes(a):
    return [[float(x).hex() for x in r] for r in np.atleast_2d(np.asarray(a, float))]


def run(ctx):
    common.assert_repo()
    zoo.build()
    ac = zoo.ac
    warnings.simplefilter('ignore')
    q = common.quick()
    rng = np.random.RandomState(common.SEED + 200)
    scratch = Path(tempfile.mkdtemp(dir=common.SCRATCH))
    ctx.tlc('FilesMC', CFG % ('1, 2, 3', '1, 3, 8', '0, 2, 9, 99999999', 2, 6 if q else 9, 'FALSE') + 'VIEW Seen\n')
    hist = ctx.prints(ctx.tlc('FilesMC', CFG % ('2, 4', '3, 4', '5, 99999999', 1, 3, 'TRUE')), 'HIST')
    nall = len(hist)
    hist = [hist[i] for i in rng.permutation(nall)[:120 if q else 3000]]
    long = ctx.prints(ctx.tlc('FilesMC', CFG % ('1, 2, 3, 4, 5', '1, 2, 3, 4, 5, 7, 8, 16', '0, 1, 3, 4, 6, 7, 8, 30, 99999999', 3, 12, 'TRUE'),
                              simulate=160 if q else 3000, depth=13, workers=1), 'HIST')
    ctx.extra['histories_from_tlc'] = nall + len(long)
    long = [long[i] for i in rng.permutation(len(long))[:200 if q else 4000]]
    print(nall, ctx.extra, len(long), flush=True)
    META = [{}, {'a': 'text', 'b': np.array([1., 2.5, -3.]), 'c': 2.5}, {'ort': 'Prüfstand µ ≥ 3', 'n': 7, 'm': np.arange(6.).reshape(2, 3)},
            {'l': [1., 2.], 'long': 'x' * 300, 'big': 2 ** 40}]

    def one(k):
        h = (hist + long)[k]
        r = np.random.RandomState(common.SEED * 1000 + k)
        d = scratch / f'h{k}'
        d.mkdir()
        ac.config.h5library = LIBS[r.randint(2)]
        first = ac.config.h5library
        meta = META[r.randint(4)]
        D = Driver(d, r, SRC, FS, ['float32', 'float64'][r.randint(2)], meta)
        there, busy = set(), None
        for x in h:
            D.op(x['op'], x['a'])
            if x['op'] == 'open':
                busy = x['a'][0]
            elif x['op'] in ('save', 'crash'):
                there.add(x['a'][0])
            elif x['op'] == 'drop':
                busy = None
            elif x['op'] == 'next':
                there.add(busy)
        if D.g is not None:
            D.op('drop', [])
        for f in sorted(there - {None}):
            D.read(f)
        return D.trace('history.' + first, f"{first} {D.prec} meta={list(meta)} {[(x['op'], x['a']) for x in h]}")
    traces = forks.pmap(one, range(len(hist) + len(long)))
    # many rows: several blocks of save
    for lib in LIBS:
        for n in ((4096, 4097, 9001) if q else (1, 4095, 4096, 4097, 8191, 8192, 8193, 9001)):
            ac.config.h5library = lib
            d = scratch / f'long{lib}{n}'
            d.mkdir()
            D = Driver(d, rng, [(n, 2, NIL), (n, 1, n)], [1000., 1.], 'float64')
            D.op('save', [1, 1])
            D.read(1)
            D.op('save', [2, 2])
            D.read(2)
            D.op('save', [2, 1])
            D.read(2)
            traces.append(D.trace('save.' + lib, f'save {n} rows with {lib}'))
    ac.config.h5library = 'pytables'

    def simple(key, desc, f):
        d = scratch / f's{len(traces)}'
        d.mkdir()
        ev = []
        cwd = os.getcwd()
        os.chdir(d)
        try:
            ev += f(d)
        except Exception as x:  # noqa: BLE001
            ev.append({'op': 'same', 'x': repr(x)[:150], 'got': '', 'want': ''})
        finally:
            os.chdir(cwd)
        traces.append({'key': key, 'desc': desc, 'src': [], 'prec': '', 'ev': ev})
    # wave files
    for _ in range(25 if q else 400):
        n, c = int(rng.choice([1, 2, 5, 50, 1023, 1024, 1025, 2100])), int(rng.randint(1, 5))
        big = int(rng.choice([1, 7, 300, 7000]))
        x = rng.randint(-big, big + 1, size=(n, c))
        if not x.any(axis=0).all():
            x[rng.randint(n)] = big
        ch = [int(v) for v in rng.permutation(c)[:rng.randint(1, c + 1)]]
        fs = float(rng.choice([8000, 44100, 51200, 7999.6]))

        def wav(d):
            w = ac.WriteWAV(source=ac.TimeSamples(data=x * 1., sample_freq=fs), file='w.wav', channels=ch)
            w.save()
            with wave.open('w.wav') as r:
                head = [r.getnchannels(), r.getsampwidth(), r.getframerate(), r.getnframes()]
                out = np.frombuffer(r.readframes(head[3]), '<i2').reshape(-1, head[0])
            return [{'op': 'wav', 'x': '', 'data': x.tolist(), 'ch': [v + 1 for v in ch], 'fs': round(fs), 'head': head, 'out': out.tolist()}]
        simple('wav', f'wave file of {n}x{c}, channels {ch}, fs {fs}', wav)
    # geometries
    names = ['m.xml', 'a&b.xml', 'x<y>.xml', 'Anordnung ü "1".xml', "o'n.v2.xml"]
    for k in range(15 if q else 200):
        n = int(rng.randint(1, 9))
        P = rng.normal(size=(3, n)) * 10. ** rng.randint(-8, 9, size=(3, n))
        if k % 4 == 0:
            P = np.round(P)
        inv = [int(i) for i in rng.permutation(n)[:rng.randint(0, n)]] if k % 2 else []
        name = names[k % len(names)]

        def geom(d):
            m = ac.MicGeom(pos_total=P, invalid_channels=inv)
            m.export_mpos(str(d / name))
            g = ac.MicGeom(file=str(d / name))
            out = [{'op': 'same', 'x': '', 'got': hexes(g.pos), 'want': hexes(np.delete(P, inv, axis=1))}]
            if len(inv) < n - 1:
                t = ac.MicGeom(file=str(d / name), invalid_channels=[0])
                out.append({'op': 'same', 'x': '', 'got': hexes(t.pos), 'want': hexes(np.delete(np.delete(P, inv, axis=1), 0, axis=1))})
            # written again, read by the same object
            m.invalid_channels = []
            m.export_mpos(str(d / 'again.xml'))
            g.file = str(d / 'again.xml')
            out.append({'op': 'same', 'x': '', 'got': [hexes(g.pos), [[str(g.num_mics)]]], 'want': [hexes(P), [[str(n)]]]})
            return out
        simple('microphones', f'{name} {n} microphones without {inv}', geom)
    # calibrations, grids
    for k in range(8 if q else 100):
        n = int(rng.randint(1, 9))
        v = rng.normal(size=n) * 10. ** rng.randint(-5, 6, size=n)
        P = rng.normal(size=(3, n))
        sub = [str(rng.choice(['left', 'right', 'a b', 'ü'])) for _ in range(n)]

        def cal(d):
            (d / 'c.xml').write_text('<?xml version="1.0" encoding="utf-8"?><Calib name="c">'
                                     + ''.join(f'<pos Name="p{i}" factor="{float(x)!r}"/>' for i, x in enumerate(v)) + '</Calib>', encoding='utf-8')
            c = ac.Calib(file=str(d / 'c.xml'))
            (d / 'g.xml').write_text('<?xml version="1.0" encoding="utf-8"?><Grid name="g">'
                                     + ''.join(f'<pos subgrid="{sub[i]}" x="{float(x)!r}" y="{float(y)!r}" z="{float(z)!r}"/>'
                                               for i, (x, y, z) in enumerate(P.T)) + '</Grid>', encoding='utf-8')
            g = ac.ImportGrid(file=str(d / 'g.xml'))
            return [{'op': 'same', 'x': '', 'got': [hexes(c.data), [[str(c.num_mics)]]], 'want': [hexes(v), [[str(n)]]]},
                    {'op': 'same', 'x': '', 'got': [hexes(g.pos), [[str(x) for x in g.subgrids]], [[str(g.size)]]], 'want': [hexes(P), [sub], [[str(n)]]]}]
        simple('xml', f'calibration and grid of {n}', cal)
    # benchmark files
    import h5py
    from acoular import aiaa
    for k in range(10 if q else 150):
        n, c, F = int(rng.randint(1, 30)), int(rng.randint(1, 5)), int(rng.randint(1, 6))
        x = rng.randint(-999, 1000, size=(n, c)).astype(float)
        re, im = rng.randint(-99, 100, size=(2, c, c, F)).astype(float)
        P = rng.normal(size=(c, 3)) if k % 2 else rng.normal(size=(3, c)).T
        sign = int(rng.choice([-1, 1]))
        fr = np.sort(rng.choice(np.arange(1, 500), F, replace=False)).astype(float)
        lib = LIBS[k % 2]

        def bench(d):
            with h5py.File('b.h5', 'w') as h:
                s = h.create_dataset('MicrophoneData/microphoneDataPa', data=x)
                s.attrs['sampleRateHz'] = 1234.5
                s = h.create_dataset('TachoData/tachoDataV', data=x[:, :1] * 2)
                s.attrs['sampleRateHz'] = 77.
                s = h.create_dataset('MetaData/ArrayAttributes/microphonePositionsM', data=P)
                h['MetaData/ArrayAttributes'].attrs['microphoneCount'] = c
                h.create_dataset('CsmData/csmReal', data=re)
                h.create_dataset('CsmData/csmImaginary', data=im)
                h['CsmData'].attrs['fftSign'] = sign
                h.create_dataset('CsmData/binCenterFrequenciesHz', data=fr[None, :] if k % 3 else fr)
            ac.config.h5library = lib
            out = []
            try:
                t = aiaa.TimeSamplesAIAABenchmark(file='b.h5')
                out.append({'op': 'same', 'x': '', 'got': [hexes(np.concatenate([np.array(b) for b in t.result(4)])), [[str(t.num_samples), str(t.num_channels), repr(float(t.sample_freq))]]],
                            'want': [hexes(x), [[str(n), str(c), '1234.5']]]})
                t.h5f.close()
                t = aiaa.TriggerAIAABenchmark(file='b.h5')
                out.append({'op': 'same', 'x': '', 'got': [hexes(np.concatenate([np.array(b) for b in t.result(7)])), [[str(t.num_samples), str(t.num_channels), repr(float(t.sample_freq))]]],
                            'want': [hexes(2 * x[:, :1]), [[str(n), '1', '77.0']]]})
                t.h5f.close()
                m = aiaa.MicAIAABenchmark(file='b.h5')
                out.append({'op': 'same', 'x': '', 'got': hexes(m.pos_total), 'want': hexes(P.T)})
                p = aiaa.CsmAIAABenchmark(file='b.h5')
                C = np.array(p.csm)
                want = re.transpose(2, 0, 1) + sign * 1j * im.transpose(2, 0, 1)
                out.append({'op': 'same', 'x': '', 'got': [hexes(C.real.reshape(F, -1)), hexes(C.imag.reshape(F, -1)), hexes(p.fftfreq()), [[str(int(p.num_channels)), str(len(list(p.indices)))]]],
                            'want': [hexes(want.real.reshape(F, -1)), hexes(want.imag.reshape(F, -1)), hexes(fr), [[str(c), str(F)]]]})
                p.h5f.close()
            finally:
                ac.config.h5library = 'pytables'
            return out
        simple('benchmark.' + lib, f'benchmark file {n} samples {c} channels {F} frequencies sign {sign}', bench)
    for t in traces[:: max(1, len(traces) // 7)]:
        ctx.sample({'case': t['desc'], 'ops': [e['op'] for e in t['ev']], 'last': str(t['ev'][-1])[:150]})
    bad = ctx.check_traces('FilesTrace', traces)
    ctx.report_bad(bad, lambda t, e, c: f"{t['key']}.{t['ev'][e - 1]['op']}|{c}")
    ctx.extra['operations'] = {o: sum(e['op'] == o for t in traces for e in t['ev']) for o in sorted({e['op'] for t in traces for e in t['ev']})}
    ctx.assumptions = ['one writer at a time, nobody else has the file open', 'a killed process ends between blocks', 'rows are exact in single precision']

"""C05: masking is slicing, after any history of parameter changes."""
import h5py
import numpy as np
from vh import common, zoo

NOSTOP = 99999
GEN = '''SPECIFICATION MCSpec
CONSTANTS NoStop = 99999 Ns = {5, 9} Cs = {3, 4} Starts <- Starts%s Stops <- Stops%s MaxOps = %d Emit = TRUE
INVARIANTS Consistent EmitHist
CONSTRAINT NonEmptyChannels
'''


def cells(n, c):
    return np.array([[100. * r + k for k in range(c)] for r in range(n)]).reshape(n, c)


class Driver:
    def __init__(self, kind, n, c):
        ac = zoo.ac
        self.kind, self.n, self.c = kind, n, c
        if kind == 'out':
            self.src = ac.TimeSamples(data=cells(n, c), sample_freq=10.)
            self.o = ac.MaskedTimeOut(source=self.src)
        elif kind == 'out.gen':     # over an operator that itself follows the source
            self.src = ac.TimeSamples(data=cells(n, c), sample_freq=10.)
            self.o = ac.MaskedTimeOut(source=ac.MaskedTimeOut(source=self.src))
        elif kind == 'samples':
            self.o = ac.MaskedTimeSamples(data=cells(n, c), sample_freq=10.)
        else:
            self.o = ac.MaskedTimeSamples(file=self.h5(n, c))
        self.ev = []

    def h5(self, n, c):
        f = zoo.fresh('.h5')
        with h5py.File(f, 'w') as h:
            a = h.create_dataset('time_data', data=cells(n, c))
            a.attrs['sample_freq'] = 10.
        return f

    def apply(self, op, a):
        o = self.o
        try:
            if op == 'start':
                o.start = a[0]
            elif op == 'stop':
                o.stop = None if a[0] == NOSTOP else a[0]
            elif op == 'inv':
                o.invalid_channels = list(a)
            elif op == 'append':
                o.invalid_channels.append(a[0])
            elif op == 'remove':
                o.invalid_channels.remove(a[0])
            elif op == 'data':
                self.n, self.c = a
                if self.kind.startswith('out'):
                    self.src.data = cells(*a)
                elif self.kind == 'samples':
                    o.data = cells(*a)
                else:
                    o.file = self.h5(*a)
        except Exception as e:  # noqa: BLE001
            self.ev.append({'e': 'exc', 'x': repr(e)[:100]})
            return
        self.ev.append({'e': op, 'a': list(a)})

    def meta(self):
        try:
            self.ev.append({'e': 'meta', 'ns': int(self.o.num_samples), 'nc': int(self.o.num_channels)})
        except Exception as e:  # noqa: BLE001
            self.ev.append({'e': 'exc', 'x': repr(e)[:100]})

    def read(self, num):
        try:
            with common.limit():
                bl = [np.array(b) for b in self.o.result(num)]
            d = np.concatenate(bl) if bl else np.zeros((0, 0))
            self.ev.append({'e': 'read', 'cells': np.rint(d).astype(int).tolist()})
        except Exception as e:  # noqa: BLE001
            self.ev.append({'e': 'exc', 'x': repr(e)[:100]})

    def abandon(self, num):
        try:
            with common.limit():
                next(self.o.result(num))
        except Exception:  # noqa: BLE001
            pass

    def trace(self, desc, n, c):
        return {'key': f'Masked.{self.kind}', 'desc': desc, 'ev': self.ev,
                'p': {'n': n, 'c': c, 'start': 0, 'stop': NOSTOP, 'inv': []}}


def run(ctx):
    common.assert_repo()
    zoo.build()
    q = common.quick()
    traces = []
    # single settings, systematically
    for kind in ('out', 'samples'):
        for n in ((1, 2, 5, 8) if q else range(1, 13)):
            vals = list(range(-n - 2, n + 3)) if (n < 5 or not q) else [-n - 1, -n, -2, -1, 0, 1, 2, n - 1, n, n + 1]
            for start in vals:
                for stop in vals + [NOSTOP]:
                    for num in ((1, 2, 3, n, n + 3) if not q else (2, 3, n)):
                        d = Driver(kind, n, 3)
                        d.apply('start', [start])
                        d.apply('stop', [stop])
                        d.meta()
                        d.read(num)
                        traces.append(d.trace(f'{kind} n={n} [{start}:{stop}] block={num}', n, 3))
    nsys = len(traces)
    # histories: every one up to a bound, and long random ones
    hist = ctx.prints(ctx.tlc('MaskingMC', GEN % ('A', 'A', 3)), 'HIST')
    ctx.extra['histories_from_tlc'] = len(hist)
    hist = ctx.rng.sample(hist, min(len(hist), 700 if q else 6000))
    long = ctx.prints(ctx.tlc('MaskingMC', GEN % ('B', 'B', 9), simulate=150 if q else 3000,
                              depth=10, workers=1), 'HIST')
    for h in hist + long:
        for kind in ('out', 'out.gen', 'samples', 'h5'):
            if kind == 'h5' and any(x['op'] == 'data' for x in h) and ctx.rng.random() < .7:
                continue
            d = Driver(kind, 5, 4)
            d.meta()
            for i, x in enumerate(h):
                d.apply(x['op'], x['a'])
                if ctx.rng.random() < .5 or i == len(h) - 1:
                    d.meta()
                if ctx.rng.random() < .15:
                    d.abandon(2)
                if ctx.rng.random() < .4 or i == len(h) - 1:
                    d.read(ctx.rng.choice((1, 2, 3, 4, 5, 16)))
            traces.append(d.trace(f'{kind} {[(x["op"], x["a"]) for x in h]}', 5, 4))
    for t in traces[:: len(traces) // 5]:
        ctx.sample({'case': t['desc'], 'events': [{k: str(v)[:60] for k, v in e.items()} for e in t['ev'][:6]]})
    ctx.report_bad(ctx.check_traces('MaskingTrace', traces, batch=20000))
    ctx.extra['single_settings'] = nsys
    ctx.assumptions = ['at least one channel is valid']

"""C17: beamforming maps in the frequency domain, exactly."""
import warnings
import numpy as np
from vh import common, zoo

TYPES = ['classic', 'inverse', 'true level', 'true location']
BIG = 2000000000


def ints(a, s=1e4):
    a = np.asarray(a, float) * s
    a = np.where(np.isfinite(a), a, BIG)
    return np.clip(np.rint(a), -BIG, BIG).astype(np.int64).tolist()


class Setup:
    """Microphones and points with small whole distances (in quarter wavelengths of the first frequency)."""

    def __init__(self, rng, small=False, nmin=2, nm=None, ngmax=6):
        r = rng.randint
        dist = [1, 2, 4] if small else [1, 2, 3, 4, 6]
        self.lcm = 4 if small else 12
        while True:
            k = nm or int(r(nmin, 5))
            if k != 3 or r(2):
                # on a line
                mics = rng.choice(13, size=k, replace=False) - 6
                pts = [x for x in range(-12, 13) if all(abs(x - m) in dist for m in mics)]
                if len(pts) < 2:
                    continue
                ng = min(len(pts), int(r(1, ngmax + 1)))
                pts = np.array(pts)[r(len(pts), size=ng)] if r(4) == 0 else rng.permutation(pts)[:ng]
                off = int(r(-3, 4))
                e = rng.normal(size=3)
                e /= np.linalg.norm(e)
                self.mics = np.outer(mics, e)
                self.grid = np.outer(pts, e)
                refs = [x for x in range(-12, 13) if all(1 <= abs(x - p) <= 6 for p in pts)]
                if not refs:
                    continue
                ref = np.array(refs)[r(len(refs))]
                self.refpos = ref * e
                shift = np.zeros(3)
                del off
            else:
                # three microphones in a plane, points with given distances
                m = np.array([[0, 0, 0], [r(1, 5), 0, 0], [r(-3, 4), r(1, 5), 0]], float)
                g = []
                for _ in range(40):
                    d = rng.choice(dist, size=3)
                    x = (d[0] ** 2 - d[1] ** 2 + m[1, 0] ** 2) / (2 * m[1, 0])
                    y = (d[0] ** 2 - d[2] ** 2 + m[2] @ m[2] - 2 * m[2, 0] * x) / (2 * m[2, 1])
                    z2 = d[0] ** 2 - x * x - y * y
                    if z2 >= 0:
                        g.append([x, y, np.sqrt(z2) * rng.choice([-1, 1])])
                if not g:
                    continue
                g = np.array(g[:int(r(1, ngmax + 1))])
                self.mics, self.grid = m, g
                self.refpos = m[r(3)].copy()
                q, _ = np.linalg.qr(rng.normal(size=(3, 3)))
                self.mics, self.grid, self.refpos = self.mics @ q, self.grid @ q, self.refpos @ q
                shift = np.zeros(3)
            self.reft = int(r(3))            # 0: origin, 1: number, 2: position
            if self.reft == 0:
                shift = -self.refpos
            elif self.reft == 2:
                shift = rng.normal(size=3)
            self.mics, self.grid, self.refpos = self.mics + shift, self.grid + shift, self.refpos + shift
            break
        self.u = float(rng.choice([.25, .1, 1., .013]))
        self.c = float(rng.choice([343., 340., 1500., 1.]))
        self.r = np.sqrt(((self.grid[:, None] - self.mics[None]) ** 2).sum(-1))
        self.refval = int(r(1, 5))
        self.r0 = np.full(len(self.grid), self.refval) if self.reft == 1 else np.sqrt(((self.grid - self.refpos) ** 2).sum(-1))
        assert np.abs(self.r - np.rint(self.r)).max() < 1e-9 and np.abs(self.r0 - np.rint(self.r0)).max() < 1e-9
        self.nm, self.ng = len(self.mics), len(self.grid)
        self.dist = np.rint(self.r).astype(int).tolist()
        self.refd = np.rint(self.r0).astype(int).tolist()

    def freq(self, k):
        return k * self.c / (4 * self.u)

    def steer(self, ac, typ, custom=False):
        cls = type('OwnSteer', (ac.SteeringVector,), {}) if custom else ac.SteeringVector
        st = cls(grid=ac.ImportGrid(pos=np.ascontiguousarray(self.grid.T * self.u)), mics=ac.MicGeom(pos_total=np.ascontiguousarray(self.mics.T * self.u)),
                 steer_type=typ, env=ac.Environment(c=self.c))
        if self.reft == 1:
            st.ref = self.refval * self.u
        elif self.reft == 2:
            st.ref = self.refpos * self.u
        return st

    def csm(self, rng, psd):
        n = self.nm
        if psd:
            a = rng.randint(-2, 3, size=(n, 2)) + 1j * rng.randint(-2, 3, size=(n, 2))
            return a @ a.conj().T
        a = rng.randint(-9, 10, size=(n, n)) + 1j * rng.randint(-9, 10, size=(n, n))
        return np.triu(a, 1) + np.triu(a, 1).conj().T + np.diag(rng.randint(0, 10, size=n))

    def parts(self, rng, ts):
        """orthogonal vectors of Gaussian integers with roots of eigenvalues in ascending order"""
        n = self.nm
        z = 1j ** rng.randint(0, 4, size=n)
        if n == 4 and rng.randint(2):
            u = [z * 1j ** (np.arange(4) * k) for k in range(4)]
        else:
            u = []
            p = list(rng.permutation(n))
            while p:
                if len(p) >= 2 and rng.rand() < .7:
                    a, b = p.pop(), p.pop()
                    for s in (1, -1):
                        v = np.zeros(n, complex)
                        v[a], v[b] = z[a], s * z[b]
                        u.append(v)
                else:
                    v = np.zeros(n, complex)
                    v[p.pop()] = 1
                    u.append(v)
        u = [u[i] for i in rng.permutation(n)]
        nn = [int(round((abs(v) ** 2).sum())) for v in u]
        return u, nn, sorted(int(t) for t in rng.choice(ts, size=n, replace=False))


def gauss(a):
    a = np.asarray(a)
    return np.stack([np.rint(a.real), np.rint(a.imag)], -1).astype(int).tolist()


def keys(rng, n):
    out = []
    for _ in range(int(rng.randint(1, 4))):
        k = rng.choice(['int', 'int', 'slice', 'list', 'all', 'npint', 'array'])
        if k in ('int', 'npint'):
            i = int(rng.randint(-n, n))
            out.append(({'k': 'int', 'i': [i]}, np.int64(i) if k == 'npint' else i))
        elif k == 'slice':
            a, b = (int(v) for v in rng.randint(-n - 1, n + 2, size=2))
            out.append(({'k': 'slice', 'i': [a, b]}, slice(a, b)))
        elif k == 'all':
            out.append(({'k': 'all', 'i': [0]}, slice(None)))
        else:
            i = sorted({int(v) % n for v in rng.randint(0, n, size=2)})
            out.append(({'k': 'list', 'i': i}, i if k == 'list' else np.array(i)))
    return out


def run(ctx):
    common.assert_repo()
    zoo.build()
    ac = zoo.ac
    q = common.quick()
    warnings.simplefilter('ignore')
    ac.config.global_caching = 'none'
    rng = np.random.RandomState(common.SEED + 170)
    for m, dist, ll, nf in (((2, '1, 2, 3', 6, 3), (3, '1, 3', 3, 1)) if q else ((2, '1, 2, 4', 4, 4), (3, '1, 2, 4', 4, 1), (3, '1, 2, 3', 6, 1))):
        ctx.tlc('FreqMapMC', 'SPECIFICATION Spec\nINVARIANTS LazyOK UnitResponse Located Norms Reference Diagonal NonNegative Complete\n'
                'CONSTANTS M = %d Dist = {%s} LL = %d NF = %d\n' % (m, dist, ll, nf))
    traces = []
    N = 2 if q else 12

    def event(t, f, **ev):
        ev['x'] = ''
        try:
            with common.limit():
                ev.update(f())
        except Exception as e:  # noqa: BLE001
            ev['x'] = repr(e)[:120]
        t['ev'].append(ev)

    def rows(res, n):
        return ints(np.asarray(res, float).reshape(-1, n))

    for _ in range(110 * N):
        eig = bool(rng.randint(2))
        gamma = int(rng.choice([1, 2]))
        s = Setup(rng, small=eig, nmin=2)
        nf = int(rng.randint(1, 4))
        ks = sorted(int(v) for v in rng.choice(np.arange(1, 6), size=nf, replace=False))
        freqs = np.array([s.freq(k) for k in ks])
        us = []
        if eig:
            C = []
            for _k in ks:
                u, nn, tt = s.parts(rng, [1, 2, 3, 4, 6] if gamma == 1 else [1, 2, 3, 4])
                us.append({'u': [gauss(v) for v in u], 'nn': nn, 't': tt})
                C.append(sum(np.outer(v, v.conj()) * float(x) ** gamma / w for v, w, x in zip(u, nn, tt)))
            C = np.array(C)
        else:
            C = np.array([s.csm(rng, bool(rng.randint(2))) for _k in ks])
        prec = str(rng.choice(['complex128', 'complex64'])) if rng.rand() < .2 else 'complex128'
        base = {'lcm': s.lcm, 'r': s.dist, 'r0': s.refd, 'k': ks, 'C': [] if eig else [gauss(c) for c in C], 'us': us, 'gamma': gamma}
        desc = f'r={s.dist} r0={s.refd} ref type={s.reft} k={ks} C={base["C"] or us} gamma={gamma} c={s.c} u={s.u}'
        for typ in TYPES:
            custom = bool(rng.rand() < .3)
            st = s.steer(ac, typ, custom)
            fd = ac.PowerSpectraImport(csm=C.astype(prec), frequencies=freqs, precision=prec)

            def trace(name):
                t = {'key': name, 'desc': f'{name} {typ} custom={custom} {desc}', 'ev': [], **base}
                traces.append(t)
                return t
            names = ['eig', 'functional', 'music'] + (['capon'] if gamma == 1 else []) if eig else ['base']
            for what in names:
                rd = bool(rng.randint(2)) if what in ('base', 'eig') else False
                norm, nv = [([0, 1], 0.), ([1, 2], .5), ([3, 1], 3.)][rng.choice([0, 0, 1, 2])]
                rp = str(rng.choice(['float64', 'float64', 'float32']))
                t = trace({'base': 'BeamformerBase', 'eig': 'BeamformerEig', 'functional': 'BeamformerFunctional', 'music': 'BeamformerMusic',
                           'capon': 'BeamformerCapon'}[what])
                n = int(rng.randint(-s.nm - 1, s.nm + 2)) if what == 'eig' else int(rng.randint(1, s.nm)) if what == 'music' else 0
                t['desc'] += f' r_diag={rd} norm={nv} n={n} precision={rp}'
                kw = dict(freq_data=fd, steer=st, precision=rp)
                if what in ('base', 'eig'):
                    kw.update(r_diag=rd, r_diag_norm=nv)
                if what in ('eig', 'music'):
                    kw['n'] = n
                if what == 'functional':
                    kw['gamma'] = float(gamma)
                o = getattr(ac, t['key'])(**kw)
                for key, pk in keys(rng, nf):
                    scale = 1e3 / 4e-10 if what == 'music' else 1e4
                    event(t, lambda: {'out': ints(np.asarray(o.result[pk], float).reshape(-1, s.ng), scale)}, op='music' if what == 'music' else 'map', what=what,  # noqa: B023
                          key=key, type=typ, rdiag=rd, norm=norm, n=n, out=[])
            # propagation, steering vectors, point spread functions
            if rng.rand() < .5:
                t = trace('SteeringVector')
                for _k in range(2):
                    k = int(rng.randint(0, 6))
                    mode = int(rng.randint(3))
                    ind = [list(range(s.ng)), [int(rng.randint(s.ng))], [int(v) for v in rng.randint(s.ng, size=2)]][mode]
                    arg = [None, ind[0], np.array(ind)][mode]

                    def f():
                        a = np.atleast_2d(st.transfer(s.freq(k), arg))  # noqa: B023
                        return {'re': ints(a.real), 'im': ints(a.imag)}
                    event(t, f, op='transfer', k=k, ind=ind, re=[], im=[])

                    def f():
                        a = np.atleast_2d(st.transfer(s.freq(k), arg))  # noqa: B023
                        w = np.atleast_2d(st.steer_vector(s.freq(k), arg))  # noqa: B023
                        p = w[:, :, None] * w[:, None].conj()
                        al = (w * a.conj())
                        return {'re': ints(p.real), 'im': ints(p.imag), 'resp': ints((w.conj() * a).sum(-1).real),
                                'aligned': [int(not (np.abs(v.imag).max() < 1e-5 * np.abs(v).max() and v.real.min() > 0)) for v in al]}
                    event(t, f, op='steer', k=k, type=typ, ind=ind, re=[], im=[], resp=[], aligned=[])
            if rng.rand() < .6:
                t = trace('PointSpreadFunction')
                mode = str(rng.choice(['single', 'block', 'full']))
                pr = str(rng.choice(['float64', 'float32']))
                p = ac.PointSpreadFunction(steer=st, calcmode=mode, precision=pr)
                t['desc'] += f' calcmode={mode} precision={pr}'
                for _k in range(2):
                    k = int(rng.randint(1, 6))
                    ind = list(range(s.ng)) if rng.rand() < .4 else [int(v) for v in rng.randint(s.ng, size=int(rng.randint(1, 4)))]
                    p.freq = s.freq(k)
                    p.grid_indices = np.array(ind)
                    event(t, lambda: {'psf': ints(p.psf[:])}, op='psf', k=k, type=typ, ind=ind, psf=[])  # noqa: B023
        if rng.rand() < .1:
            t = {'key': 'mismatch', 'desc': f'{desc}: one channel more than microphones', 'ev': [], **base}
            traces.append(t)

            def f():
                n = s.nm + int(rng.choice([-1, 1]))  # noqa: B023
                b = ac.BeamformerBase(freq_data=ac.PowerSpectraImport(csm=np.zeros((1, n, n), complex), frequencies=np.array([1.])), steer=s.steer(ac, 'classic'))  # noqa: B023
                try:
                    b.result[0]
                except ValueError:
                    return {'raised': True}
                return {'raised': False}
            event(t, f, op='mismatch', raised=False)
    for t in traces[:: len(traces) // 7]:
        ctx.sample({'case': t['desc'][:300], 'events': [str(e)[:200] for e in t['ev'][:2]]})
    ctx.report_bad(ctx.check_traces('FreqMapTrace', traces))
    ctx.extra['kinds'] = sorted({t['key'] for t in traces})
    ctx.assumptions = ['distances are 1, 2, 3, 4 or 6 quarter wavelengths (times the number of the frequency), 2 to 4 microphones, up to 6 points',
                       'cross spectral matrices of Gaussian integers or with known orthogonal eigenvectors', 'values to 1e-4 absolute and 5e-5 relative']

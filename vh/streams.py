"""Recording executions of block-wise objects as traces of BlockStream."""
import numpy as np
from vh import common, zoo


class Ref:
    """Row numbers: row k of the reference output is number k."""
    def __init__(self, rows, tol):
        self.rows, self.tol = rows, tol
        self.scale = (np.abs(rows).max() if rows.size else 0) + 1.0
        self.eps = 1e-12 if tol == 0 else tol

    def same(self, a, b):
        if a.shape != b.shape:
            return False
        return bool(np.all(np.abs(a - b) <= self.eps * self.scale))   # NaN compares false

    def ids(self, block, pos):
        r = []
        for i in range(block.shape[0]):
            k = pos + i
            if k < len(self.rows) and self.same(block[i], self.rows[k]):
                r.append(k + 1)
                continue
            for j in range(len(self.rows)):
                if self.same(block[i], self.rows[j]):
                    r.append(j + 1)
                    break
            else:
                r.append(0)
        return r


class Recorder:
    """Drives one instance, records events."""
    def __init__(self, inst, refs, part=True):
        self.inst, self.refs = inst, refs
        self.ev = []
        self.it, self.num, self.pos, self.hold = {}, {}, {}, {}
        self.state = {}
        self.before = [np.array(w, copy=True) for w in inst.watch]

    def open(self, r, n):
        self.ev.append({'e': 'open', 'r': r, 'n': n})
        try:
            with common.limit():
                self.it[r] = iter(self.inst.call(n))
        except Exception as e:  # noqa: BLE001
            return self.exc(r, e)
        self.num[r], self.pos[r], self.hold[r], self.state[r] = n, 0, [], 'open'
        return True

    def exc(self, r, e):
        self.ev.append({'e': 'exc', 'r': r, 'x': f'{type(e).__name__}: {str(e)[:80]}'})
        self.state[r] = 'dead'
        return False

    def next(self, r):
        if self.state.get(r) != 'open':
            return False
        try:
            with common.limit():
                b = next(self.it[r])
        except StopIteration:
            self.ev.append({'e': 'end', 'r': r})
            self.state[r] = 'done'
            return False
        except Exception as e:  # noqa: BLE001
            return self.exc(r, e)
        if not isinstance(b, np.ndarray) or b.ndim != 2:
            return self.exc(r, TypeError(f'block is no 2-D array: {type(b)} {getattr(b, "shape", None)}'))
        ref = self.refs(self.num[r]) if self.refs else None
        rows = ref.ids(b, self.pos[r]) if ref else [0] * b.shape[0]
        self.ev.append({'e': 'next', 'r': r, 'rows': rows, 'w': int(b.shape[1])})
        self.hold[r].append((b, self.pos[r]))
        self.pos[r] += b.shape[0]
        return True

    def drop(self, r):
        if self.state.get(r) == 'open':
            self.it[r].close()
            self.state[r] = 'dropped'
            self.ev.append({'e': 'drop', 'r': r})

    def drain(self, r, limit=2000):
        n = 0
        while self.next(r):
            n += 1
            if n > limit:
                self.exc(r, RuntimeError('endless'))
                break

    def held(self, r):
        """re-read every block the reader has been given"""
        if r not in self.hold:
            return
        ref = self.refs(self.num[r]) if self.refs else None
        rows = []
        for b, p in self.hold[r]:
            rows += ref.ids(b, p) if ref else [0] * b.shape[0]
        self.ev.append({'e': 'held', 'r': r, 'rows': rows})

    def src(self):
        same = all(np.array_equal(np.asarray(w), b, equal_nan=True) for w, b in zip(self.inst.watch, self.before))
        self.ev.append({'e': 'src', 'r': 1, 'same': bool(same)})


def full(op, n, num):
    """Concatenation of one full read of a fresh twin."""
    inst = op.make(n)
    with common.limit():
        bl = [np.array(b, copy=True) for b in inst.call(num)]
    if not bl:
        return np.zeros((0, 1))
    return np.concatenate(bl)


LONG = 1100   # a source longer than any block or buffer the code might use internally


def nums_for(op, n, tier_quick, rng):
    if n >= LONG:
        return [k for k in ((7, 255, 1000, 1024, 4096) if n == LONG else (1, 2, 3, 5, 8)) if not op.maxnum or k <= op.maxnum]
    base = [1, 2, 3, 4, 5, 8, 12, 13, 16, 40]
    if not tier_quick:
        base = list(range(1, n + 4)) + [40, 64]
    out = [k for k in base if not op.maxnum or k <= op.maxnum]
    return out

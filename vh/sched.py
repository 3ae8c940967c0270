"""A deterministic scheduler for real threads: every thread stops before each line (or bytecode) it executes in
the traced files and goes on when the schedule grants it a step. A thread that does not come back within
`block` seconds waits for a lock another thread holds; the schedule then goes on with another one."""
import sys
import threading
import time


class Sched:
    def __init__(self, bodies, files, opcodes=False, block=0.02, deadline=20.):
        self.bodies, self.files, self.opcodes, self.block = bodies, tuple(files), opcodes, block
        self.n = len(bodies)
        self.go = [threading.Semaphore(0) for _ in bodies]
        self.at = [threading.Semaphore(0) for _ in bodies]
        self.done = [False] * self.n
        self.waiting = [False] * self.n    # stopped at a yield point
        self.free = False
        self.deadline = time.time() + deadline
        self.steps = 0

    def _stop(self, i):
        if self.free:
            return
        self.waiting[i] = True
        self.at[i].release()
        self.go[i].acquire()
        self.waiting[i] = False

    def _tracer(self, i):
        def local(frame, event, arg):
            if event == ('opcode' if self.opcodes else 'line'):
                self._stop(i)
            return local

        def glob(frame, event, arg):
            if frame.f_code.co_filename.endswith(self.files):
                if self.opcodes:
                    frame.f_trace_opcodes = True
                    frame.f_trace_lines = False
                return local
            return None
        return glob

    def _main(self, i):
        sys.settrace(self._tracer(i))
        try:
            self._stop(i)
            self.bodies[i]()
        finally:
            sys.settrace(None)
            self.done[i] = True
            self.at[i].release()

    def step(self, i):
        """one step of thread i; False if it cannot be granted"""
        if self.done[i]:
            return False
        if not self.waiting[i]:     # blocked earlier: has it come back?
            if not self.at[i].acquire(timeout=self.block):
                return False
            if self.done[i]:
                return False
        self.go[i].release()
        self.steps += 1
        if not self.at[i].acquire(timeout=self.block):
            return False
        return not self.done[i]

    def run(self, schedule):
        th = [threading.Thread(target=self._main, args=(i,), daemon=True) for i in range(self.n)]
        for x in th:
            x.start()
        for i in range(self.n):
            self.at[i].acquire()
        for i, k in schedule:
            for _ in range(k):
                if not self.step(i) or time.time() > self.deadline:
                    break
        self.free = True
        for i in range(self.n):
            self.go[i].release()
        for x in th:
            x.join(max(0.1, self.deadline - time.time()))
        return not any(x.is_alive() for x in th)

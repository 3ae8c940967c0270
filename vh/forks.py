"""Work in child processes: a pool of workers, and one child per session of a history."""
import json, os, signal, struct, sys, traceback


def child(f, timeout=60):
    """Run f(emit) in a forked process; returns the list of emitted events and how the process ended."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.alarm(timeout)
            out = os.fdopen(w, 'w', buffering=1)

            def emit(e):
                out.write(json.dumps(e) + '\n')
                out.flush()
            f(emit)
            out.flush()
            import atexit
            atexit._run_exitfuncs()     # files are closed as at the end of any process
        except BaseException:  # noqa: BLE001
            traceback.print_exc()
            os._exit(7)
        os._exit(0)
    os.close(w)
    with os.fdopen(r) as fi:
        ev = [json.loads(x) for x in fi if x.endswith('\n')]
    _, st = os.waitpid(pid, 0)
    return ev, (-os.WTERMSIG(st) if os.WIFSIGNALED(st) else os.WEXITSTATUS(st))


def pmap(f, items, workers=7):
    """[f(x) for x in items] in forked workers (round robin)."""
    items = list(items)
    if os.environ.get('VERIF_SERIAL'):
        return [f(x) for x in items]
    res = [None] * len(items)
    pipes = []
    for k in range(min(workers, len(items) or 1)):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                with os.fdopen(w, 'w') as fo:
                    for i in range(k, len(items), workers):
                        fo.write(json.dumps([i, f(items[i])]) + '\n')
            except BaseException:  # noqa: BLE001
                traceback.print_exc()
                os._exit(7)
            os._exit(0)
        os.close(w)
        pipes.append((pid, r))
    import threading

    def rd(r):
        with os.fdopen(r) as fi:
            for x in fi:
                if x.endswith('\n'):
                    i, v = json.loads(x)
                    res[i] = [v]
    ths = [threading.Thread(target=rd, args=(r,)) for _, r in pipes]
    [t.start() for t in ths]
    [t.join() for t in ths]
    for pid, _ in pipes:
        os.waitpid(pid, 0)
    from vh import common
    if any(x is None for x in res):
        raise common.MachineryError('a worker process died')
    return [x[0] for x in res]

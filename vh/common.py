"""Shared machinery: TLC runner, verdicts, known findings, evidence."""
import json, os, random, re, signal, subprocess, sys, time, warnings
from pathlib import Path

ROOT = Path(os.environ.get('VERIF_ROOT', '/verif'))
SCRATCH = Path(os.environ['VERIF_SCRATCH'])
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1'))
SPECS = ROOT / 'specs'
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class MachineryError(Exception):
    pass


def quick():
    return TIER != 'thorough'


class Stuck(Exception):
    pass


class limit:
    """No case of a check may take longer: raises Stuck in the code that runs (a loop that does not end)."""
    stuck = 0

    def __init__(self, sec=30):
        self.sec = sec

    def __enter__(self):
        if limit.stuck:
            self.sec = 4 if limit.stuck < 5 else 0.5   # the verdict is known, do not wait long again

        def h(*a):
            limit.stuck += 1
            raise Stuck(f'no answer within {self.sec} s')
        self.old = signal.signal(signal.SIGALRM, h)
        signal.setitimer(signal.ITIMER_REAL, self.sec)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)
        return False


class TLCResult:
    def __init__(self, out, states, distinct, ok, prints):
        self.out, self.states, self.distinct, self.ok, self.prints = out, states, distinct, ok, prints


class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.rng = random.Random(SEED * 7919 + sum(map(ord, pid)))
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.viol = []          # (key, description)
        self.known = {}
        self.level = 'model_checking'
        self._n = 0
        kf = ROOT / 'known_findings.json'
        self.known_list = []
        if kf.exists():
            self.known_list = [k for k in json.loads(kf.read_text())['findings']
                               if k['property'] == pid and k['status'] == 'known']

    # ---- TLC -------------------------------------------------------------------------------
    def tlc(self, module, cfg, env=None, workers='auto', timeout=600, simulate=None, depth=None, tag=None,
            deadlock=False, heap='6g', must_pass=True, dump=None, extra=(), count=True):
        """Run TLC on specs/<module>.tla with the configuration text `cfg`."""
        self._n += 1
        d = SCRATCH / f'tlc{self._n}'
        d.mkdir()
        for f in SPECS.glob('*.tla'):
            (d / f.name).write_text(f.read_text())
        (d / 'run.cfg').write_text(cfg)
        cmd = ['java', '-XX:+UseParallelGC', f'-Xmx{heap}', '-Xss64m', '-cp', JAR, 'tlc2.TLC', '-config', 'run.cfg',
               '-metadir', str(d / 'meta'), '-workers', str(workers), '-noGenerateSpecTE']
        if not deadlock:
            cmd.append('-deadlock')
        if simulate:
            cmd += ['-simulate', f'num={simulate}', '-seed', str(SEED)]
            if depth:
                cmd += ['-depth', str(depth)]
        if dump:
            cmd += ['-dump', 'dot,actionlabels', str(dump)]
        cmd += list(extra) + [module + '.tla']
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        outf = d / 'out.txt'
        with open(outf, 'w') as fo:
            try:
                rc = subprocess.run(cmd, cwd=d, env=e, stdout=fo, stderr=subprocess.STDOUT, timeout=timeout).returncode
            except subprocess.TimeoutExpired as ex:
                raise MachineryError(f'TLC timed out on {module}') from ex
        out = outf.read_text()
        m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
        if m:
            gen, dist = (int(x.replace(',', '')) for x in m[-1])
        else:
            m = re.findall(r'The number of states generated: ([\d,]+)', out)
            gen = dist = int(m[-1].replace(',', '')) if m else 0
        ok = rc == 0
        if must_pass and not ok:
            i = max(out.find('Error:'), 0)
            raise MachineryError(f'TLC failed on {module} rc={rc}:\n' + out[i:i + 1200] + '\n...\n' + out[-800:])
        if count:
            self.transitions += gen
            self.states += dist
        return TLCResult(out, gen, dist, ok, None)

    def prints(self, res, tag):
        """Values printed with PrintT(<<tag, json-string>>)."""
        r = []
        for line in res.out.splitlines():
            if line.startswith('<<"' + tag + '", '):
                r.append(json.loads(json.loads(line[len(tag) + 6:-2].strip())))
        return r

    # ---- trace checking ---------------------------------------------------------------------
    def check_traces(self, module, traces, cfg_consts='', timeout=800, batch=4000, workers='auto', describe=None):
        """Validate recorded traces against specs/<module>.tla. Each trace: dict(key=..., ev=[...], ...).

        The trace specification prints one VERDICT line for every trace: either accepted or the
        number of the first event that no action of the specification explains and the clause it breaks."""
        bad = []
        for b in range(0, len(traces), batch):
            part = traces[b:b + batch]
            self._n += 1
            f = SCRATCH / f'traces{self._n}.ndjson'
            with open(f, 'w') as fo:
                for t in part:
                    fo.write(json.dumps({k: v for k, v in t.items() if k not in ('key', 'desc')}) + '\n')
            cfg = 'SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\n' + cfg_consts
            res = self.tlc(module, cfg, env={'TRACE': f}, timeout=timeout, workers=workers)
            verdicts = {}
            for line in res.out.splitlines():
                m = re.match(r'<<"VERDICT", (\d+), (\d+), "([^"]*)">>', line)
                if m:
                    i = int(m.group(1))
                    if m.group(3) != 'ok' or i not in verdicts:
                        verdicts.setdefault(i, (int(m.group(2)), m.group(3)))
                        if m.group(3) != 'ok' and verdicts[i][1] == 'ok':
                            verdicts[i] = (int(m.group(2)), m.group(3))
            if len(verdicts) != len(part):
                raise MachineryError(f'{module}: {len(verdicts)} verdicts for {len(part)} traces\n' + res.out[-3000:])
            self.traces += len(part)
            for i, (ev, cl) in sorted(verdicts.items()):
                if cl != 'ok':
                    bad.append((part[i - 1], ev, cl))
            f.unlink()
        return bad

    def report_bad(self, bad, keyf=None):
        for t, ev, cl in bad:
            key = f"{t['key']}|{cl}" if keyf is None else keyf(t, ev, cl)
            e = t['ev'][ev - 1] if 0 < ev <= len(t['ev']) else None
            self.violation(key, f"{t.get('desc', t['key'])}: event {ev} {json.dumps(e)[:300]} breaks clause '{cl}'",
                           {'trace': t, 'event': ev, 'clause': cl})

    # ---- verdicts ---------------------------------------------------------------------------
    def violation(self, key, desc, replay=None):
        for k in self.known_list:
            if re.fullmatch(k['match'], key):
                self.known.setdefault(k['id'], (k, []))[1].append(key)
                return
        self.viol.append((key, desc, replay))

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def finish(self):
        wall = time.time() - self.t0
        for kid, (k, keys) in self.known.items():
            print(f"KNOWN-FINDING: property={self.pid} {k['what']} [{kid}; {len(keys)} case(s)]")
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces, 'samples': self.samples or ['none']}
        cov.update(self.extra)
        ev = {'property': self.pid, 'tier': TIER, 'seed': SEED, 'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(wall, 2), 'violations': len(self.viol)}
        (ROOT / 'evidence').mkdir(exist_ok=True)
        (ROOT / 'evidence' / f'{self.pid}.json').write_text(json.dumps(ev, indent=1, default=str))
        if not self.viol:
            print(f'{self.pid}: held; {self.states} states, {self.transitions} transitions, '
                  f'{self.traces} traces, {wall:.1f}s')
            return 0
        rd = ROOT / 'evidence' / 'replay'
        rd.mkdir(exist_ok=True)
        seen = {}
        for key, desc, rep in self.viol:
            seen.setdefault(key, (desc, rep))
        path = rd / f'{self.pid}.json'
        path.write_text(json.dumps([{'key': k, 'what': d, 'replay': r} for k, (d, r) in list(seen.items())[:400]],
                                   indent=1, default=str))
        for k, (d, r) in list(seen.items())[:int(os.environ.get('VERIF_SHOW', '15'))]:
            print(f'  {k}: {d}')
        print(f'VIOLATION property={self.pid} replay={path}')
        return 1


def assert_repo():
    import acoular
    if not acoular.__file__.startswith(os.environ.get('VERIF_REPO', '/repo') + '/'):
        raise MachineryError('acoular is not imported from /repo: ' + acoular.__file__)
    return acoular

"""Machinery shared by the checks: build, run drivers, run TLC, validate traces, report."""
import fcntl
import glob
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build', 'h'))
TLA = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CORES = os.cpu_count() or 4


class CheckError(Exception):
    """The check itself failed: no answer."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------ build
def build(targets):
    os.makedirs(BUILD, exist_ok=True)
    with open(BUILD + '.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        t0 = time.time()
        last = ''
        for full in ('OFF', 'ON'):
            cfg = ['cmake', '-S', os.path.join(VERIF, 'harness'), '-B', BUILD, '-G', 'Ninja', f'-DREPO={REPO}',
                   '-DCMAKE_BUILD_TYPE=None', '-DCMAKE_CXX_FLAGS=-O1 -g1 -w', f'-DFULL_LIB={full}']
            p = subprocess.run(cfg, capture_output=True, text=True)
            if p.returncode != 0:
                last = p.stdout + p.stderr
                continue
            p = subprocess.run(['ninja', '-C', BUILD] + list(targets), capture_output=True, text=True)
            if p.returncode == 0:
                log(f'[build] {" ".join(targets)}: {time.time() - t0:.1f}s')
                return
            last = p.stdout + p.stderr
            log('[build] failed' + (', trying with the whole library' if full == 'OFF' else ''))
        raise CheckError('build failed:\n' + last[-1500:])


# ------------------------------------------------------------------ TLC
class Tlc:
    def __init__(self, text, rc, wall):
        self.text, self.rc, self.wall = text, rc, wall
        m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', text)
        self.transitions = int(m[-1][0].replace(',', '')) if m else 0
        self.states = int(m[-1][1].replace(',', '')) if m else 0
        self.ok = 'Model checking completed. No error has been found.' in text
        self.simulated = 'states checked' in text

    def coverage(self):
        cov = {}
        for m in re.finditer(r'<(\w+) line [^>]*>: (\d+):(\d+)', self.text):
            cov[m.group(1)] = cov.get(m.group(1), 0) + int(m.group(3))
        return cov


def tlc(module, cfg=None, env=None, workers=None, timeout=600, extra=(), meta=None, mem='6g'):
    """module: path below spec/ without .tla"""
    d = os.path.join(VERIF, 'spec', os.path.dirname(module))
    base = os.path.basename(module)
    meta = meta or os.path.join(VERIF, 'out', f'tlc.{os.getpid()}.{base}')
    shutil.rmtree(meta, ignore_errors=True)
    os.makedirs(meta, exist_ok=True)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ['java', '-XX:+UseParallelGC', f'-Xmx{mem}', '-Xss64m', f'-Djava.io.tmpdir={meta}', '-cp', TLA,
           '-DTLA-Library=' + ':'.join(os.path.join(VERIF, 'spec', x) for x in ('lib', 'tree')), 'tlc2.TLC', '-noGenerateSpecTE',
           '-metadir', meta, '-workers', str(workers or CORES), '-config', (cfg or base) + '.cfg', *extra, base + '.tla']
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout, errors='replace')
        out, rc = p.stdout + p.stderr, p.returncode
    except subprocess.TimeoutExpired as x:
        out = (x.stdout or b'').decode(errors='replace') + '\nTIMEOUT\n'
        rc = -1
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return Tlc(out, rc, time.time() - t0)


def read_traces(path):
    r = []
    if os.path.exists(path):
        with open(path, errors='replace') as f:
            for line in f:
                line = line.strip()
                if not line:
                    continue
                try:
                    r.append(json.loads(line))
                except ValueError:
                    pass  # last line of a driver that died
    return r


class Validation:
    def __init__(self):
        self.accepted = 0
        self.rejected = []   # trace, index of the first event that cannot be matched, state text
        self.states = 0
        self.transitions = 0
        self.wall = 0.0
        self.events = {}


def _run_trace_spec(module, cfg, traces, tmp, diag, timeout):
    with open(tmp, 'w') as f:
        for t in traces:
            f.write(json.dumps(t) + '\n')
    r = tlc(module, cfg, env={'TRACES': tmp, 'DIAG': '1' if diag else '0'}, timeout=timeout)
    acc = set(int(x) for x in re.findall(r'<<"ACC", (\d+)>>', r.text))
    return r, acc


def validate(module, cfg, traces, scratch, timeout=600, chunk=6000):
    """Checks every trace against the trace specification; returns a Validation."""
    v = Validation()
    t0 = time.time()
    for t in traces:
        for e in t['ev']:
            v.events[e['k']] = v.events.get(e['k'], 0) + 1
    tmp = os.path.join(scratch, 'batch.ndjson')

    def go(part):
        r, acc = _run_trace_spec(module, cfg, part, tmp, False, timeout)
        v.states += r.states
        v.transitions += r.transitions
        if 'Parsing or semantic analysis failed' in r.text:
            raise CheckError(f'{module} does not parse: ' + r.text[-1500:])
        if r.ok:
            v.accepted += len(acc)
            return [t for i, t in enumerate(part, 1) if i not in acc]
        if len(part) == 1:
            if 'TIMEOUT' in r.text or 'OutOfMemory' in r.text:
                raise CheckError(f'TLC gave no answer on a trace of {module}')
            return [part[0]]
        if 'TIMEOUT' in r.text and r.wall > timeout - 1 and len(part) < 20:
            raise CheckError(f'TLC ran out of time on {module}')
        log(f'[tlc] error on a batch of {len(part)}, splitting: ' + _first_error(r.text))
        bad = []
        h = len(part) // 2
        for sub in (part[:h], part[h:]):
            bad += go(sub)
            if len(bad) >= 4:
                break
        return bad

    bad = []
    for i in range(0, len(traces), chunk):
        bad += go(traces[i:i + chunk])
    for t in bad[:4]:
        r, _ = _run_trace_spec(module, cfg, [t], tmp, True, timeout)
        ats = [int(x) for x in re.findall(r'<<"AT", \d+, (\d+)>>', r.text)]
        at = max(ats) + 1 if ats else 1
        v.rejected.append((t, at, '' if r.ok else _first_error(r.text)))
    for t in bad[4:]:
        v.rejected.append((t, 0, ''))
    v.wall = time.time() - t0
    return v


def _first_error(text):
    m = re.search(r'Error: .*(?:\n.*){0,6}', text)
    return m.group(0)[:800] if m else text[-800:]


# ------------------------------------------------------------------ drivers
class DriverRun:
    pass


def run_driver(name, args, scratch, timeout, tag=''):
    out = os.path.join(scratch, f'{name}{tag}.ndjson')
    cur = os.path.join(scratch, f'{name}{tag}.current')
    for p in (out, cur):
        if os.path.exists(p):
            os.unlink(p)
    cmd = [os.path.join(BUILD, name), f'--out={out}', f'--current={cur}'] + args
    r = DriverRun()
    r.cmd, r.out = cmd, out
    t0 = time.time()
    env = dict(os.environ)
    env['MALLOC_PERTURB_'] = '165'   # freed memory does not keep its contents
    env['TEST_RESOURCES_PATH'] = os.path.join(REPO, 'test', 'resources')
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=scratch, env=env,
                         errors='replace', start_new_session=True)
    try:
        so, se = p.communicate(timeout=timeout)
        r.rc, r.stdout, r.stderr = p.returncode, so, se
        r.hang = False
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        so, se = p.communicate()
        r.rc, r.stdout, r.stderr = -9, so, se
        r.hang = True
    r.wall = time.time() - t0
    r.stats = {}
    for m in re.finditer(r'^STATS (\{.*\})$', r.stdout, re.M):
        r.stats = json.loads(m.group(1))
    r.current = ''
    if os.path.exists(cur):
        with open(cur, 'rb') as f:
            r.current = f.read().split(b'\0')[0].decode(errors='replace')
    r.traces = read_traces(out)
    r.died = r.hang or r.rc != 0
    return r


# ------------------------------------------------------------------ known findings
def known_findings():
    p = os.path.join(VERIF, 'known-findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)


# ------------------------------------------------------------------ one check
class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.scratch = os.path.join(VERIF, 'out', f'{prop}.{tier}.{os.getpid()}')
        shutil.rmtree(self.scratch, ignore_errors=True)
        os.makedirs(self.scratch)
        self.replays = os.path.join(VERIF, 'out', 'replays')
        os.makedirs(self.replays, exist_ok=True)
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': []}
        self.parts = []
        self.violations = []
        self.findings = []
        self.assumptions = []

    @property
    def quick(self):
        return self.tier == 'quick'

    # -- design: the specification itself
    def design(self, module, cfg=None, timeout=300, extra=(), never_ok=(), workers=None, coverage=True):
        r = tlc(module, cfg, timeout=timeout, extra=(*(('-coverage', '1') if coverage else ()), *extra), workers=workers)
        if not r.ok and not (r.simulated and 'Error' not in r.text):
            raise CheckError(f'the specification {module} ({cfg}) does not satisfy its properties:\n' + r.text[-3000:])
        cov = r.coverage()
        dead = sorted(a for a, n in cov.items() if n == 0 and a not in never_ok and a not in ('Init', 'Next'))
        self.cov['states'] += r.states
        self.cov['transitions'] += r.transitions
        self.parts.append({'kind': 'design', 'module': module, 'cfg': cfg or os.path.basename(module),
                           'states': r.states, 'transitions': r.transitions, 'wall_s': round(r.wall, 2),
                           'actions_never_taken': dead})
        log(f'[design] {module} {cfg or ""}: {r.states} states, {r.wall:.1f}s' + (f', never taken: {dead}' if dead else ''))

    # -- conformance: traces recorded from the real code
    def conform(self, driver, args, module, cfg=None, timeout=300, tlc_timeout=600, tag='', classify=None):
        """Runs the driver and validates what it recorded. classify(trace, at) -> finding key or None."""
        args = [f'--seed={self.seed}'] + list(args)
        r = run_driver(driver, args, self.scratch, timeout, tag)
        if r.died:
            self._died(driver, args, r, timeout, tag, module)
        traces = r.traces
        if not traces and not r.died:
            raise CheckError(f'{driver} recorded nothing: {r.stdout[-500:]} {r.stderr[-500:]}')
        v = validate(module, cfg, traces, self.scratch, tlc_timeout)
        self.cov['traces_validated_against_impl'] += v.accepted
        self.cov['states'] += v.states
        self.cov['transitions'] += v.transitions
        self.cov['executions'] = self.cov.get('executions', 0) + r.stats.get('runs', len(traces))
        short = sorted((t for t in traces if len(t['ev']) > 3), key=lambda t: len(json.dumps(t)))
        self.cov.setdefault('samples', []).extend(short[len(short) // 3:][:1] + short[len(short) // 2:][:1])
        self.parts.append({'kind': 'conformance', 'driver': driver, 'args': args, 'module': module, 'cfg': cfg,
                           'driver_stats': r.stats, 'traces': len(traces), 'accepted': v.accepted,
                           'rejected': len(v.rejected), 'states': v.states, 'events': v.events,
                           'driver_wall_s': round(r.wall, 2), 'tlc_wall_s': round(v.wall, 2)})
        log(f'[conform] {driver}{tag}: {r.stats.get("runs", "?")} runs, {len(traces)} distinct traces, {v.accepted} accepted, '
            f'{len(v.rejected)} rejected; driver {r.wall:.1f}s, tlc {v.wall:.1f}s, events {v.events}')
        for t, at, err in v.rejected[:2]:
            self._rejected(driver, t, at, err, module, cfg, timeout, tlc_timeout, tag, classify, args)
        return r, v

    def _replay_file(self, name, data):
        path = os.path.join(self.replays, f'{self.prop}-{name}-{len(self.violations)}.json')
        with open(path, 'w') as f:
            json.dump(data, f, indent=1)
        return path

    def _rejected(self, driver, t, at, err, module, cfg, timeout, tlc_timeout, tag, classify, args=None):
        # does it happen again?
        again = run_driver(driver, [f'--prog={t["prog"]}', f'--sched={t.get("sched", "")}'], self.scratch, timeout, tag + '.again')
        confirmed = None
        if again.died:
            confirmed = 'the repeated execution ended abnormally'
        elif again.traces:
            v2 = validate(module, cfg, again.traces, self.scratch, tlc_timeout)
            if v2.rejected:
                confirmed = 'the repeated execution was rejected as well'
                t, at, err = v2.rejected[0]
        if not confirmed and args:
            # not on its own: then as part of the whole run
            again = run_driver(driver, args, self.scratch, timeout, tag + '.again')
            same = [x for x in again.traces if x['prog'] == t['prog'] and x.get('sched') == t.get('sched')]
            for x in same[:1]:
                v2 = validate(module, cfg, [x], self.scratch, tlc_timeout)
                if v2.rejected:
                    confirmed = 'the same execution was rejected again when the whole run was repeated'
                    t, at, err = v2.rejected[0]
        if not confirmed:
            log(f'[conform] a rejection did not repeat, not reported: {t["prog"]}')
            self.parts.append({'kind': 'unconfirmed', 'prog': t['prog'], 'at': at})
            return
        key = classify(t, at) if classify else None
        if key and self._known(key):
            return
        ev = t['ev']
        data = {'property': self.prop, 'driver': driver, 'prog': t['prog'], 'sched': t.get('sched'),
                'specification': module, 'first_unmatched_event': at, 'event': ev[at - 1] if 0 < at <= len(ev) else None,
                'tlc': err, 'confirmed': confirmed, 'finding_key': key, 'trace': t,
                'repeat': f'python3 tools/check.py {self.prop} --replay <this file>'}
        path = self._replay_file(driver + tag, data)
        self.violation(path, f'{driver}: "{t["prog"]}": event {at} {json.dumps(data["event"])} is not allowed by {module} {err}')

    def _died(self, driver, args, r, timeout, tag, module):
        again = run_driver(driver, args, self.scratch, timeout, tag + '.again')
        why = 'hangs' if r.hang else f'dies (exit {r.rc})'
        if not again.died:
            if r.rc == 2 or 'sched:' in r.stderr:
                raise CheckError(f'{driver} failed: {r.stderr[-1000:]}')
            log(f'[conform] {driver} died once and not again, not reported: {r.stderr[-500:]}')
            self.parts.append({'kind': 'unconfirmed', 'driver': driver, 'rc': r.rc, 'current': r.current})
            return
        prog, _, sch = r.current.partition('\n')
        data = {'property': self.prop, 'driver': driver, 'args': args, 'what': f'the code under test {why} while executing',
                'prog': prog, 'sched': sch, 'stderr': r.stderr[-2000:], 'specification': module}
        path = self._replay_file(driver + tag + '-died', data)
        self.violation(path, f'{driver} {why} while executing "{prog}": {r.stderr.strip()[-300:]}')

    def _known(self, key):
        for f in known_findings():
            if f.get('property') == self.prop and f.get('key') == key and f.get('status') == 'open':
                if key not in self.findings:
                    self.findings.append(key)
                    print(f'KNOWN-FINDING: property={self.prop} {f["what"]}', flush=True)
                return True
        return False

    def violation(self, path, text):
        self.violations.append(text)
        print(f'VIOLATION property={self.prop} replay={path}', flush=True)
        log('  ' + text)

    def finish(self):
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking',
              'coverage': dict(self.cov, parts=self.parts), 'wall_s': round(time.time() - self.t0, 2),
              'assumptions': self.assumptions, 'violations': len(self.violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        path = os.path.join(VERIF, 'evidence', f'{self.prop}.json')
        with open(path + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(path + '.tmp', path)
        shutil.rmtree(self.scratch, ignore_errors=True)
        log(f'[{self.prop}] {self.tier}: {time.time() - self.t0:.1f}s, {len(self.violations)} violation(s)')
        return 1 if self.violations else 0

"""Shared machinery of the checks: workers, TLC runs, verdicts, evidence."""
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
PY = '/opt/venv/bin/python'
NPROC = min(8, os.cpu_count() or 1)
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
PKGS = ['launch', 'launch_xml', 'launch_yaml', 'launch_testing', 'launch_pytest']


class CheckError(Exception):
    """The machinery (not the code under test) failed."""


class Scratch:
    def __enter__(self):
        base = os.environ.get('VP_TMP') or tempfile.gettempdir()
        self.path = tempfile.mkdtemp(prefix='vp-', dir=base)
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


def code_env(scratch):
    """Environment in which the code of /repo's working tree is imported."""
    env = {'PATH': '/usr/local/bin:/usr/bin:/bin', 'HOME': scratch, 'LANG': 'C.UTF-8',
           'LC_ALL': 'C.UTF-8', 'TMPDIR': scratch}
    paths = [os.path.join(VERIF, 'harness', 'stub'), os.path.join(VERIF, 'harness')]
    paths += [os.path.join(REPO, p) for p in PKGS]
    env['PYTHONPATH'] = os.pathsep.join(paths)
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env['PYTHONHASHSEED'] = '0'
    env['ROS_LOG_DIR'] = os.path.join(scratch, 'roslog')
    env['VP_SCRATCH'] = scratch
    env['VP_REPO'] = REPO
    for k in ('VP_DEBUG', 'VP_CASE_LIMIT'):
        if k in os.environ:
            env[k] = os.environ[k]
    return env


def run_real(driver, jobs, scratch, chunk=None, timeout=600, extra_env=None):
    """Run the jobs in NPROC worker processes; returns the results in order."""
    if not jobs:
        return []
    n = NPROC
    chunk = chunk or max(1, min(200, (len(jobs) + n - 1) // n))
    parts = [(i, jobs[i:i + chunk]) for i in range(0, len(jobs), chunk)]
    results = [None] * len(jobs)
    pending = list(parts)
    running = []
    deadline = time.time() + timeout
    k = 0
    while pending or running:
        if time.time() > deadline:
            for start, js in pending:
                for i in range(len(js)):
                    results[start + i] = {'not_run': True}
            pending = []
        while pending and len(running) < n:
            start, js = pending.pop(0)
            k += 1
            d = os.path.join(scratch, 'w%s-%d' % (driver, k))
            os.makedirs(d)
            inp, outp = os.path.join(d, 'in.json'), os.path.join(d, 'out.json')
            with open(inp, 'w') as f:
                json.dump(js, f)
            err = open(os.path.join(d, 'err'), 'w')
            env = code_env(d)
            env.update(extra_env or {})
            p = subprocess.Popen([PY, os.path.join(VERIF, 'harness', 'worker.py'), driver, inp,
                                  outp], cwd=d, env=env, stdout=subprocess.DEVNULL, stderr=err,
                                 stdin=subprocess.DEVNULL)
            running.append((p, start, js, outp, d, time.time()))
        time.sleep(0.02)
        for item in list(running):
            p, start, js, outp, d, t0 = item
            rc = p.poll()
            if rc is None:
                if time.time() > deadline:
                    p.kill()
                    p.wait()
                    rc = -9
                else:
                    continue
            running.remove(item)
            rs = []
            if os.path.exists(outp):
                for line in open(outp):
                    if line.endswith('\n'):
                        rs.append(json.loads(line))
            for i, r in enumerate(rs):
                results[start + i] = r
            if len(rs) < len(js):
                late = time.time() > deadline
                if not late:
                    # this scenario kills the worker
                    err = open(os.path.join(d, 'err')).read()[-2000:]
                    results[start + len(rs)] = {'worker_died': rc, 'err': err}
                    if len(rs) + 1 < len(js):
                        pending.insert(0, (start + len(rs) + 1, js[len(rs) + 1:]))
                else:
                    for i in range(len(rs), len(js)):
                        results[start + i] = {'not_run': True}
            shutil.rmtree(d, ignore_errors=True)
    for r in results:
        if 'harness_error' in r:
            raise CheckError('driver %s: %s\n%s' % (driver, r['harness_error'], r.get('tb', '')))
    return results


class TLC:
    """One or several TLC runs; accumulates the measured numbers."""

    def __init__(self, scratch):
        self.scratch = scratch
        self.states = 0
        self.distinct = 0
        self.runs = 0
        self.k = 0
        self.actions = {}

    def start(self, module, cfg=None, env=None, args=(), heap='1500m', workers=1, dfs=False):
        self.k += 1
        meta = os.path.join(self.scratch, 'tlc%d' % self.k)
        os.makedirs(meta)
        spec = os.path.join(VERIF, 'spec')
        cmd = ['java', '-XX:+UseSerialGC', '-Xmx' + heap, '-Xss64m',
               '-Djava.io.tmpdir=' + meta, '-cp',
               '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar',
               *(['-Dtlc2.tool.queue.IStateQueue=StateDeque'] if dfs else []),
               'tlc2.TLC', '-noGenerateSpecTE', '-metadir', meta, '-workers', str(workers),
               '-fp', '1', '-seed', str(SEED), '-config', os.path.join(spec, cfg or module + '.cfg'), *args,
               os.path.join(spec, module + '.tla')]
        e = dict(os.environ)
        e.update(env or {})
        out = open(os.path.join(meta, 'out.txt'), 'w')
        p = subprocess.Popen(cmd, stdout=out, stderr=subprocess.STDOUT, cwd=meta, env=e,
                             stdin=subprocess.DEVNULL)
        return p, meta

    def finish(self, h, timeout):
        p, meta = h
        try:
            p.wait(timeout=timeout)
            to = False
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            to = True
        text = open(os.path.join(meta, 'out.txt'), errors='replace').read()
        shutil.rmtree(meta, ignore_errors=True)
        m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', text)
        if m:
            self.states += int(m[-1][0].replace(',', ''))
            self.distinct += int(m[-1][1].replace(',', ''))
        else:
            m = re.findall(r'([\d,]+) states generated(?: \([\d,]+ s/min\))?, ([\d,]+) distinct',
                           text)
            if m:       # (stopped at its time limit)
                self.states += int(m[-1][0].replace(',', ''))
                self.distinct += int(m[-1][1].replace(',', ''))
        m = re.findall(r'The number of states generated: ([\d,]+)', text) \
            or re.findall(r'Progress: ([\d,]+) states checked', text)
        if m:
            self.states += int(m[-1].replace(',', ''))
        self.runs += 1
        return {'rc': p.returncode, 'out': text, 'timeout': to,
                'ok': p.returncode == 0 and 'No error has been found' in text}

    def run(self, module, cfg=None, env=None, args=(), timeout=300, **kw):
        return self.finish(self.start(module, cfg, env, args, **kw), timeout)


def said(text):
    """The verdict lines of a trace specification: (tag, trace, position, what)."""
    out = []
    for line in text.splitlines():
        m = re.match(r'"?@@(\w+) (\d+) (\d+) (.*?)"?$', line)
        if m:
            out.append((m.group(1), int(m.group(2)), int(m.group(3)),
                        m.group(4).replace('\\"', '"')))
    return out


def validate(tlc, module, traces, scratch, cfg=None, timeout=700, batch=None, env=None, jvms=None,
             heap='1500m', undecided=None):
    """
    Trace validation: returns {index: diagnosis} for every refused trace.

    With a list `undecided`, the traces that need more than the budget of states or time get there.
    """
    if not traces:
        return {}
    jvms = jvms or NPROC
    batch = batch or max(1, (len(traces) + jvms - 1) // jvms)
    # round-robin split balances the load
    k = (len(traces) + batch - 1) // batch
    groups = [[i for i in range(len(traces)) if i % k == g] for g in range(k)]
    bad = {}
    todo = list(enumerate(groups))
    running = []
    t_end = time.time() + timeout
    while todo or running:
        while todo and len(running) < jvms:
            g, idx = todo.pop(0)
            f = os.path.join(scratch, '%s-%d-%d.json' % (module, g, tlc.k))
            with open(f, 'w') as fh:
                json.dump([traces[i] for i in idx], fh)
            e = {'TRACE_FILE': f}
            e.update(env or {})
            running.append((tlc.start(module, cfg, e, heap=heap, dfs=True), g, idx, f))
        h, g, idx, f = running.pop(0)
        r = tlc.finish(h, max(1, t_end - time.time()))
        os.unlink(f)
        acc, mis, gup = set(), {}, set()
        for tag, t, l, what in said(r['out']):
            if tag == 'ACC':
                acc.add(t)
            elif tag == 'MIS' and (t not in mis or l >= mis[t][0]):
                old = mis[t][1] if t in mis and mis[t][0] == l else []
                mis[t] = (l, (old + [what])[-4:])
            elif tag == 'GUP':
                gup.add(t)
        late = r['timeout'] and undecided is not None
        if not r['ok'] and not late:
            raise CheckError('TLC failed on %s (batch %d):\n%s' % (module, g, r['out'][-3000:]))
        for j, i in enumerate(idx):
            if j + 1 not in acc:
                if undecided is not None and (late or j + 1 in gup):
                    undecided.append(i)
                    continue
                l, exp = mis.get(j + 1, (0, ['no step of the specification is possible']))
                bad[i] = {'position': l, 'specification_allows': exp}
    return bad


def known_findings(prop):
    """Pairs of how the failure starts and what it is, as listed in known_findings.txt."""
    out = []
    for line in open(os.path.join(VERIF, 'known_findings.txt')):
        if line.startswith('known: property=%s ' % prop):
            start, what = line.split(' ', 2)[2].strip().split(' | ')
            out.append((start, what))
    return out


class Result:
    def __init__(self, prop, level='model_checking'):
        self.prop = prop
        self.level = level
        self.t0 = time.time()
        self.cov = {}
        self.assumptions = []
        self.violations = []
        self.known = []
        self.replay_dir = os.path.join(VERIF, 'evidence', 'replays')

    def violation(self, data, what=''):
        os.makedirs(self.replay_dir, exist_ok=True)
        path = os.path.join(self.replay_dir, '%s-%d.json' % (self.prop, len(self.violations)))
        with open(path, 'w') as f:
            json.dump({'property': self.prop, 'what': what, 'data': data}, f, indent=1,
                      default=str)
        self.violations.append((path, what))

    def finish(self):
        ev = {'property': self.prop, 'tier': TIER, 'seed': SEED, 'level': self.level,
              'coverage': self.cov, 'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for k in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k))
        for path, what in self.violations[:20]:
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            print('  ' + what[:600])
        sys.stdout.flush()
        return 1 if self.violations else 0


def rng(*salt):
    return random.Random('%d/%s/%s' % (SEED, TIER, '/'.join(map(str, salt))))


def sample(xs, n=3):
    return xs[:n]

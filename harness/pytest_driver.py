"""Test modules run by pytest with the launch_pytest plugin (C30)."""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
LIMIT = 20
hangs = 0


def source(case):
    s = ['import asyncio', 'import time', 'import launch', 'import launch_pytest',
         'import pytest', 'import vprec as V', '']
    for f, x in enumerate(case['fixtures'], 1):
        if x['np']:
            s.append('@launch_pytest.fixture(scope=%r, params=%r, auto_shutdown=%r, '
                     'shutdown_when_idle=%r)' % (case['scope'], list(range(1, x['np'] + 1)),
                                                 x['auto'], x['idle']))
        elif case['scope'] == 'function' and x['auto'] and x['idle']:
            s.append('@launch_pytest.fixture')
        else:
            s.append('@launch_pytest.fixture(scope=%r, auto_shutdown=%r, shutdown_when_idle=%r)'
                     % (case['scope'], x['auto'], x['idle']))
        s += ['def fx%d(request):' % f,
              "    return V.describe(%d, getattr(request, 'param', 0), %r, %r, %r)"
              % (f, x['does'], x['ready'], x['seq']), '']
    groups = []
    for i, t in enumerate(case['tests'], 1):
        if not groups or groups[-1][0] != t['grp']:
            groups.append((t['grp'], []))
        groups[-1][1].append((i, t))
    named = {}
    for g, tests in groups:
        pad = ''
        if g:
            named[g] = named.get(g, 0) + 1
            s.append('class TestG%d:' % g)
            pad = '    '
        for i, t in tests:
            s += [pad + x for x in body(i, t, bool(g))] + ['']
    return '\n'.join(s) + '\n'


def body(i, t, method):
    s = []
    if t['mark'] == 'launch':
        s.append('@pytest.mark.launch(fixture=fx%d%s)'
                 % (t['f'], ', shutdown=True' if t['sd'] else ''))
    elif t['mark'] == 'nofix':
        s.append('@pytest.mark.launch()')
    launched = t['mark'] == 'launch'
    args = ['self'] if method else []
    if launched:
        args += ['launch_service', 'event_loop'] + ['fx%d' % t['f']] * t['ask']
    aw = t['kind'] in ('coro', 'agen')
    s.append('%sdef test_%d(%s):' % ('async ' if aw else '', i, ', '.join(args)))
    who = 'launch_service, event_loop, %s' % ('fx%d' % t['f'] if t['ask'] else 'None') \
        if launched else 'None, None, None'
    slp = ('await asyncio.sleep(%s)' if aw else 'time.sleep(%s)') % t['nap'] if t['nap'] else 'pass'
    s += ["    V.part('a', %d, %s, %r)" % (i, who, t['kind'] if launched else 'plain'),
          '    ' + slp, '    V.finish(%r)' % t['p1']]
    if t['kind'] in ('gen', 'agen'):
        if t['p1'] == 'none':
            s += ['    return'] * (not aw) + ['    if not event_loop:', '        yield']
        else:
            s += ['    yield', "    V.part('b', %d, %s, %r)" % (i, who, t['kind']),
                  '    ' + slp, '    V.finish(%r)' % t['p2']]
            if t['p2'] == 'more':
                s.append('    yield')
    return s


RUN = '''
import sys
import pytest
import vprec
sys.exit(pytest.main(['-p', 'launch_pytest.plugin', '-p', 'no:cacheprovider', '-q',
                      '-W', 'ignore', '--rootdir', '.'] + sys.argv[1:],
                     plugins=[vprec.Plugin()]))
'''


def go(files, d, limit):
    """Run pytest; return its end and the recorded lines."""
    log = os.path.join(d, 'log')
    if os.path.exists(log):
        os.remove(log)
    repo = os.environ.get('VP_REPO', '/repo')
    env = dict(os.environ, PYTEST_DISABLE_PLUGIN_AUTOLOAD='1', VP_PT_LOG=log,
               PYTHONDONTWRITEBYTECODE='1',
               PYTHONPATH=os.pathsep.join([HERE, os.path.join(HERE, 'stub')] + [
                   os.path.join(repo, x) for x in ('launch', 'launch_pytest', 'launch_testing')]))
    for x in list(env):
        if x.startswith('OVERRIDE_LAUNCH') or x == 'PYTEST_ADDOPTS':
            del env[x]
    p = subprocess.Popen([sys.executable, '-B', '-c', RUN] + files, cwd=d, env=env,
                         stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, start_new_session=True)
    try:
        out, hung = p.communicate(timeout=limit)[0], False
    except subprocess.TimeoutExpired:
        p.kill()
        out, hung = p.communicate()[0], True
    ops = []
    if os.path.exists(log):
        with open(log) as f:
            for line in f:
                if line.endswith('\n'):
                    ops.append(json.loads(line))
    return hung, p.returncode, ops, out.decode(errors='replace')


def run(job, scratch):
    global hangs
    if hangs:
        # (enough is known)
        return {'runs': [], 'cases': []}
    d = os.path.join(scratch, 'pt')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, 'pytest.ini'), 'w') as f:
        f.write('[pytest]\n')
    todo = list(range(len(job['cases'])))
    runs = [None] * len(todo)
    names = ['test_m%d' % k for k in todo]
    for k, c in enumerate(job['cases']):
        with open(os.path.join(d, names[k] + '.py'), 'w') as f:
            f.write(source(c))
    alone = False
    while todo:
        part = todo[:1] if alone else todo
        hung, rc, ops, out = go([names[k] + '.py' for k in part], d, LIMIT)
        if hung and not alone:
            alone = True
            # the module in progress comes first
            part = [k for k in part if ops and names[k] == ops[-1]['m']]
            todo = part + [k for k in todo if k not in part]
            continue
        todo = todo[len(part):]
        by = {}
        for o in ops:
            by.setdefault(o.pop('m'), []).append(o)
        for k in part:
            mine = by.get(names[k], [])
            if hung or not mine or rc not in (0, 1):
                mine.append({'k': 'hang' if hung else 'pytest ended with %s: %s' % (
                    rc, out[-600:]), 'id': 0, 'p': 0, 'n': 0, 'runs': False, 'loop': True,
                    'out': ''})
            hangs += hung
            runs[k] = {'module': spec_module(job['cases'][k]), 'ops': mine}
            if os.environ.get('VP_PT_SHOW'):
                runs[k]['out'] = out
        if hung:
            break
    done = [k for k, r in enumerate(runs) if r]
    return {'runs': [runs[k] for k in done], 'cases': [job['cases'][k] for k in done]}


# What the specification knows of launches.
KIND = {'shut': 'brief', 'earlyshut': 'never'}


def spec_module(case):
    return {'scope': case['scope'],
            'fixtures': [{'np': x['np'],
                          'launch': 'stay' if x['does'] == 'end' and not x['idle']
                          else KIND.get(x['does'], x['does'])} for x in case['fixtures']],
            'tests': [{k: t[k] for k in ('kind', 'f', 'sd', 'p1', 'p2', 'grp', 'mark')}
                      for t in case['tests']]}

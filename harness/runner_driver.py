"""Runs of launch tests through the launch_test command (C24)."""
import json
import os
import sys
import time
import traceback
import types
import xml.etree.ElementTree as ET

import stall

FILE = '''
import builtins
import time
import unittest
import launch
from launch.actions import *
from launch.event_handlers import *
import launch_testing
import launch_testing.actions
import launch_testing.markers
import launch_testing.asserts

CASE = builtins._vp_case
LOG = builtins._vp_log
RUNS = CASE['runs']
NOW = [0]


def note(k, i=0):
    def f(*args):
        LOG(NOW[0], k, i)
    return f


def boom(context):
    raise RuntimeError('launch fails')


def description(n):
    NOW[0] = n + 1
    sh = RUNS[n]
    if sh['skip']:
        raise unittest.SkipTest('not this one')
    out = [OpaqueFunction(function=note('up')),
           RegisterEventHandler(OnShutdown(on_shutdown=note('shutdown')))]
    for i, p in enumerate(sh['procs'], 1):
        a = ExecuteProcess(cmd=['sh', '-c', p['script']], output='log')
        out += [RegisterEventHandler(OnProcessStart(target_action=a, on_start=note('start', i))),
                RegisterEventHandler(OnProcessExit(target_action=a, on_exit=note('gone', i))), a]
    if sh['fails']:
        out.append(TimerAction(period=sh['fails'] / 1000,
                               actions=[OpaqueFunction(function=boom)]))
    ready = [OpaqueFunction(function=note('ready')), launch_testing.actions.ReadyToTest()]
    if sh['readyat'] < 0:
        out.append(GroupAction([launch_testing.actions.ReadyToTest()],
                               condition=launch.conditions.IfCondition('false')))
    elif sh['readyat'] == 0:
        out += ready
    elif sh['nested']:
        out.append(TimerAction(period=sh['readyat'] / 1000, actions=[GroupAction(ready)]))
    else:
        out.append(TimerAction(period=sh['readyat'] / 1000, actions=ready))
    return launch.LaunchDescription(out), {'extra': n}


if CASE['param']:
    def generate_test_description(n):
        return description(n)
else:
    def generate_test_description():
        return description(0)
if RUNS[0]['keep']:
    def _mark(f):
        return launch_testing.markers.keep_alive(f)
    generate_test_description = _mark(generate_test_description)
if RUNS[0]['timeout'] < 15000:
    generate_test_description = launch_testing.ready_to_test_action_timeout(
        RUNS[0]['timeout'] / 1000)(generate_test_description)
if CASE['param']:
    generate_test_description = launch_testing.parametrize(
        'n', list(range(len(RUNS))))(generate_test_description)


def make(kind, i):
    """Test number i: what it does depends on the run."""
    tries = {}

    def body(self, extra):
        t = RUNS[extra][kind][i - 1]
        k = tries[extra] = tries.get(extra, 0) + 1
        if k == 1 and t['ms']:
            time.sleep(t['ms'] / 1000)
        how = t['how']
        if how == 'fail':
            self.fail('no')
        if how == 'error':
            raise ValueError('no')
        if how == 'skip':
            self.skipTest('not now')
        if how == 'xpass':
            return
        if how == 'retry':
            assert k > t['times'], 'not yet'
    return body


class Base(unittest.TestCase):
    def setUp(self, extra):
        self.n = extra
        i = int(self._testMethodName[5:7])
        LOG(extra + 1, self.B, i)
        self.addCleanup(LOG, extra + 1, self.E, i)


def fill(cls, kind):
    for i in range(1, len(RUNS[0][kind]) + 1):
        f = make(kind, i)
        how = RUNS[0][kind][i - 1]['how']
        if how == 'retry':
            f = launch_testing.markers.retry_on_failure(times=3)(f)
        if how in ('xpass', 'xfail'):
            f = unittest.expectedFailure(f)
        setattr(cls, 'test_%02d' % i, f)


class Active(Base):
    B, E = 'begin', 'end'

    @classmethod
    def setUpClass(cls, extra):
        if not RUNS[extra]['classes']:
            raise ValueError('no class')


@launch_testing.post_shutdown_test()
class Post(Base):
    B, E = 'pbegin', 'pend'


fill(Active, 'active')
fill(Post, 'post')
del Base
'''
OUTCOME = {'pass': 'good', 'fail': 'bad', 'error': 'bad', 'skip': 'skip', 'xpass': 'bad'}


def kind(t):
    if t['how'] == 'retry':
        return 'good' if t['times'] < 3 else 'bad'
    return OUTCOME[t['how']]


def one(case, scratch):
    import builtins
    from launch_testing import launch_test
    d = os.path.join(scratch, 'lt')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, 'case_launch_test.py')
    with open(path, 'w') as f:
        f.write(FILE)
    xml = os.path.join(d, 'report.xml')
    if os.path.exists(xml):
        os.remove(xml)
    t0 = time.monotonic()
    ops, closed = [], [False]

    def log(run, k, i):
        if not closed[0]:
            ops.append({'run': run, 'k': k, 'i': i, 'ms': int((time.monotonic() - t0) * 1000) + 1})
    builtins._vp_case, builtins._vp_log = case, log
    args = types.SimpleNamespace(
        launch_test_file=path, package_name=None, verbose=False, show_args=False,
        launch_arguments=[], xmlpath=xml)

    class Bad:
        def error(self, m):
            raise RuntimeError(m)
    code, err = 1, ''
    try:
        code = launch_test.run(Bad(), args)
    except Exception as e:
        site = [f.name for f in traceback.extract_tb(e.__traceback__)
                if '/launch_testing/' in f.filename][-1:]
        code, err = 2, '%s in %s: %s' % (type(e).__name__, ''.join(site), str(e)[:200])
    closed[0] = True
    status = [{k: ['absent'] * len(r[k]) for k in ('active', 'post')} for r in case['runs']]
    lastrun = 0
    if os.path.exists(xml):
        for n, suite in enumerate(ET.parse(xml).getroot()):
            lastrun = n + 1
            for tc in suite:
                key = 'active' if tc.get('classname').endswith('Active') else 'post'
                i = int(tc.get('name')[5:7])
                tags = {c.tag for c in tc}
                status[n][key][i - 1] = 'error' if 'error' in tags else 'failed' \
                    if 'failure' in tags else 'skipped' if 'skipped' in tags else 'passed'
    for n, r in enumerate(case['runs']):
        for k in ('active', 'post'):
            for i, t in enumerate(r[k]):
                # (the report does not tell unexpected successes from passed tests)
                if t['how'] == 'xpass' and status[n][k][i] == 'passed':
                    status[n][k][i] = 'failed'
    runs = [{'active': [kind(t) for t in r['active']], 'post': [kind(t) for t in r['post']],
             'skip': r['skip'], 'timeout': r['timeout'], 'classes': r['classes'] or not r['active'],
             'readies': r['readyat'] >= 0, 'lives': r['lives']} for r in case['runs']]
    return {'runs': runs, 'ops': ops, 'status': status, 'code': code, 'err': err,
            'lastrun': lastrun}


def run(job, scratch):
    out = [stall.steady(lambda: one(c, scratch), .1) for c in job['cases']]
    return {'runs': [r for r in out if r], 'cases': [c for c, r in zip(job['cases'], out) if r]}

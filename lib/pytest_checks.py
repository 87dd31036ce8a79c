"""C30: test modules run with launch_pytest (spec PyTest)."""
import simple
import vp


def test(r, scope, nf, grp):
    kind = r.choice(['func', 'coro', 'gen', 'gen', 'agen', 'agen', 'func'])
    gen = kind in ('gen', 'agen')
    t = {'kind': kind, 'f': r.randrange(nf) + 1, 'sd': r.random() < (.06 if gen else .35),
         'p1': r.choice(['ok'] * 6 + ['fail', 'raise', 'skip'] + ['none'] * gen),
         'p2': r.choice(['ok', 'ok', 'ok', 'fail', 'skip', 'more']), 'grp': grp, 'mark': 'launch',
         'ask': r.random() < .5, 'nap': r.choice([0, 0, 0, .01, .06])}
    if r.random() < .1:
        t.update(kind='plain', mark='none', sd=False, p1=r.choice(['ok', 'ok', 'fail']))
    elif r.random() < .04:
        t.update(kind='plain', mark='nofix', sd=False)
    return t


def case30(r):
    scope = r.choice(['function', 'class', 'module', 'module'])
    nf = r.choice([1, 1, 2]) if scope == 'function' else 1
    fixtures = []
    for _ in range(nf):
        does = r.choice(['stay'] * 8 + ['end', 'brief', 'shut', 'err', 'err', 'never', 'early',
                                        'earlyshut'])
        x = {'np': r.choice([0, 0, 0, 2]), 'does': does, 'auto': True, 'idle': True,
             'ready': r.choice(['end', 'absent', 'timer', 'group', 'first', 'cond']),
             'seq': r.choice(['', '', 'tuple', 'list'])}
        if does == 'early' and x['ready'] == 'first':
            x['ready'] = 'end'
        if does == 'earlyshut':
            x['ready'] = 'timer'
        if does in ('end', 'brief', 'shut', 'err') and r.random() < .4:
            x['auto'] = False
        elif r.random() < .3 and does in ('stay', 'end', 'shut', 'err'):
            x['idle'] = False
        fixtures.append(x)
    tests = []
    for g in range(1, (r.choice([1, 2, 3]) if scope == 'class' else 1) + 1):
        if scope != 'class':
            g = r.choice([0, 0, 1])
        for _ in range(r.choice([1, 2, 3, 4] if scope == 'class' else [1, 2, 3, 4, 5, 6])):
            tests.append(test(r, scope, nf, g))
            if scope != 'class' and r.random() < .2:
                g += 1
    return {'scope': scope, 'fixtures': fixtures, 'tests': tests}


def run_pytest(prop, res, scratch):
    th = vp.TIER == 'thorough'
    cases = [case30(vp.rng('C30', i)) for i in range(6000 if th else 640)]
    per = 16
    jobs = [{'cases': cases[k:k + per]} for k in range(0, len(cases), per)]
    simple.run('pytest modules', prop, res, scratch, 'pytest_driver', jobs, 'PyTestTrace', None,
               mc=[('PyTestMC', 'PyTestMC.cfg')], case_limit=800,
               confirm=lambda c: {'cases': [c]},
               bound='%d test modules of up to twelve tests' % len(cases),
               split=lambda j, r: list(zip(r['cases'], r['runs'])))

"""C24: runs of launch tests (spec Runner)."""
import simple
import vp


def tests(r, slow):
    out = []
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        x = r.random()
        how = 'pass' if x < .72 else r.choice(['fail', 'error', 'skip', 'retry', 'xpass'])
        out.append({'how': how, 'times': r.choice([0, 1, 2, 3]) if how == 'retry' else 0,
                    'ms': r.choice([0, 0, 20, 450]) if slow else 0})
    return out


def one(r, first=None):
    kind = r.choice(['lives', 'lives', 'lives', 'dies', 'dies', 'fails', 'nothing', 'keep'])
    sh = {'active': tests(r, True), 'post': tests(r, False), 'skip': False, 'timeout': 15000,
          'classes': True, 'readyat': r.choice([0, 0, 30, 60]), 'nested': r.random() < .5,
          'procs': [], 'fails': 0, 'keep': False, 'lives': False}
    stay = {'script': 'exec sleep 30'}
    stubborn = {'script': "sleep 30 & P=$!; trap 'kill $P; sleep 0.1; exit 3' INT; wait"}
    if kind in ('lives', 'fails'):
        sh['procs'] = [r.choice([stay, stay, stubborn]) for _ in range(r.choice([1, 2]))]
    if kind in ('dies', 'keep'):
        t = "printf 'h\\303\\251'; sleep %.2f; exit %d" % (r.choice([.01, .1, .25]), r.choice([0, 1]))
        sh['procs'] = [{'script': t}] * r.choice([1, 2])
    if kind == 'fails':
        sh['fails'] = r.choice([20, 100, 250])
    sh['keep'] = kind == 'keep'
    x = r.random()
    if x < .12:
        sh.update(timeout=300, readyat=r.choice([-1, 700, 700]))
    elif x < .2:
        sh.update(timeout=300)
    if r.random() < .05:
        sh['classes'] = False
    if kind == 'lives' and r.random() < .2:
        # one of several dies, the others stay
        sh['procs'] = sh['procs'] + [{'script': 'sleep 0.05; exit 1'}]
    return lives(sh)


def lives(sh):
    """Whether the launch goes on by itself until its tests are through."""
    sh['lives'] = not sh['fails'] and (
        sh['keep'] or any('sleep 30' in p['script'] for p in sh['procs']))
    return sh


def case24(r):
    a = one(r)
    if r.random() < .7:
        a['skip'] = r.random() < .06
        return {'param': False, 'runs': [a]}
    runs = [a]
    for _ in range(r.choice([1, 2])):
        b = one(r)
        # the marks of the description and the kinds of tests are those of all runs
        b['timeout'], b['keep'] = a['timeout'], a['keep']
        lives(b)
        for k in ('active', 'post'):
            mine = []
            for t in a[k]:
                t = dict(t)
                if t['how'] == 'retry':
                    t['times'] = r.choice([0, 1, 2, 3])
                elif t['how'] in ('pass', 'fail', 'error', 'skip'):
                    t['how'] = r.choice(['pass', 'pass', 'pass', 'fail', 'error', 'skip'])
                mine.append(t)
            b[k] = mine
        b['skip'] = r.random() < .12
        runs.append(b)
    return {'param': True, 'runs': runs}


def run_runner(prop, res, scratch):
    th = vp.TIER == 'thorough'
    cases = [case24(vp.rng('C24', i)) for i in range(6000 if th else 700)]
    jobs = [{'cases': cases[k:k + 8]} for k in range(0, len(cases), 8)]
    known = vp.known_findings(prop)

    def split(j, r):
        out = []
        for c, t in zip(r['cases'], r['runs']):
            k = [what for start, what in known if t['err'].startswith(start)]
            if k and t['code']:
                # (only these, and only where the run is not taken for a success)
                if k[0] not in res.known:
                    res.known.append(k[0])
            else:
                out.append((c, t))
        return out
    simple.run('launch tests', prop, res, scratch, 'runner_driver', jobs, 'RunnerTrace', None,
               mc=[('RunnerMC', 'RunnerMC.cfg')], case_limit=200,
               split=split, confirm=lambda c: {'cases': [c]},
               bound='%d launch tests of up to three runs' % len(cases))

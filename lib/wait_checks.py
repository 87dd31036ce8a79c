"""C23: waits of launch_testing, C29: waits of launch_pytest (spec Waits)."""
import simple
import vp

ACT = {'by': 'action', 'i': 1, 'name': '', 'args': 'any', 'list': [], 'single': False,
       'strict': True}
WAIT = {'o': 'wait', 'api': 'out', 'sel': ACT, 'fd': 1, 'txt': '', 'forever': False, 'limit': 0,
        'form': False, 'd': 0, 'abort': 'no'}


def chunks(r, alphabet='ab'):
    return [{'fd': r.choice([1, 1, 2]), 't': ''.join(r.choice(alphabet) for _ in range(
        r.choice([1, 2, 3])))} for _ in range(r.choice([0, 1, 2, 3, 4]))]


def case23(r):
    names = r.sample(['n-1', 'n-2', 'n-3'] if r.random() < .6 else ['n-1', 'n-11', 'n-111'],
                     r.choice([1, 1, 2, 3]))
    again = []
    procs = [{'name': n, 'args': []} for n in names]
    lines = []
    for p in range(1, len(procs) + 1):
        if r.random() < .12:
            continue
        lines.append([{'kind': 'start', 'p': p, 'fd': 0, 't': '', 'code': 0}]
                     + [dict(c, kind='out', p=p, code=0) for c in chunks(r)]
                     + [{'kind': 'exit', 'p': p, 'fd': 0, 't': '', 'code': r.choice([0, 1, -2])}
                        for _ in range(r.random() < .8)])
        if lines[-1][-1]['kind'] == 'exit' and r.random() < .25:
            # it is started again
            again.append(p)
            lines[-1] += [lines[-1][0]] + [dict(c, kind='out', p=p, code=0) for c in chunks(r)] \
                + [dict(lines[-1][-1]) for _ in range(r.random() < .5)]
    arr = []
    while any(lines):
        s = r.choice([x for x in lines if x])
        arr.append(dict(s.pop(0), d=r.choice([0, 0, 0, 1, 2, 5, 12])))
    waits = []
    same = None
    for _ in range(r.choice([1, 2, 3, 4])):
        if r.random() < .12:
            waits.append({'o': 'reads', 'd': r.choice([0, 2, 6]), 'n': r.choice([3, 8]),
                          'p': r.randrange(len(procs) + 1)})
            continue
        if same and r.random() < .35:
            waits.append(dict(same, d=r.choice([0, same['d']])))
            continue
        i = r.randrange(len(procs)) + 1
        w = dict(WAIT, api=r.choice(['out', 'out', 'out', 'start', 'exit', 'exit', 'pout', 'pexit']),
                 sel=dict(ACT, i=i), d=r.choice([0, 0, 0, 2, 5, 10, 25]), form=r.random() < .3)
        if i in again and w['api'] in ('exit', 'pexit'):
            # (only the latest start or exit is known)
            w['api'] = 'out'
        if w['api'] in ('out', 'start', 'exit') and r.random() < .5 \
                and not any(names[i - 1] in n for n in names if n != names[i - 1]):
            w['sel'] = dict(ACT, by='name', name=names[i - 1], i=i)
        if w['api'] == 'out' and r.random() < .3:
            w['sel'] = dict(ACT, by='all', i=i) if r.random() < .5 else \
                dict(ACT, by='name', name='n-', strict=False, i=i)
        w['fd'] = r.choice([1, 1, 2])
        outs = [a for a in arr if a['kind'] == 'out'
                and (w['api'] == 'pout' or a['fd'] == w['fd'])
                and (w['sel']['by'] == 'all' or w['sel']['name'] == 'n-' or a['p'] == i)]
        if w['api'] == 'pout':
            outs = [a for a in outs if a['p'] == i]
        here = {a['kind'] for a in arr if a['p'] == i}
        if w['api'] in ('out', 'pout'):
            if w['sel']['by'] == 'all' or w['sel']['name'] == 'n-':
                one = r.choice([x['p'] for x in outs]) if outs else 0
                outs = [a for a in outs if a['p'] == one]
            t = ''.join(a['t'] for a in outs)
            if t and r.random() < .8:
                k = r.randrange(len(t))
                w['txt'], good = t[k:k + r.choice([1, 2, 3, 6])], True
                if w['api'] == 'pout' and r.random() < .3:
                    w['txt'] = ''
            else:
                w['txt'] = r.choice(['zz', 'abababa'])
                good = w['txt'] in t
        else:
            good = {'start': here, 'exit': 'exit' in here, 'pexit': 'exit' in here}[w['api']]
        if good and r.random() < .85:
            w['limit'], w['forever'] = 50000, r.random() < .3
        else:
            w['limit'] = r.choice([0, 50, 200, 500, 1000])
        waits.append(w)
        same = w
    pause = {}
    for k in range(len(waits) + 1):
        if r.random() < .5:
            pause[str(k)] = sorted(r.sample(range(1, 60), r.choice([1, 2, 4])))
    return {'procs': procs, 'arr': arr, 'waits': waits, 'pause': pause,
            'len': r.choice([2, 4, 8])}


def case29(r):
    procs = []
    for n in range(r.choice([1, 1, 2])):
        steps = [dict(c, kind='out', code=0, d=r.choice([0, 0, 5, 20, 40])) for c in chunks(r)]
        steps.append({'kind': 'exit', 'code': r.choice([0, 0, 3]), 'd': r.choice([0, 0, 10, 30]),
                      't': '', 'fd': 0})
        procs.append({'name': 'n-%d' % n, 'steps': steps, 'at': r.choice([0, 0, 0, 10, 40])})
    waits = []
    for _ in range(r.choice([2, 3, 4, 5])):
        i = r.randrange(len(procs)) + 1
        w = dict(WAIT, api=r.choice(['pstream', 'pstream', 'pstream', 'pstart', 'pexit', 'pexit']),
                 sel=dict(ACT, i=i), d=r.choice([0, 0, 1, 5, 15, 40, 90, 200]), form=r.random() < .4,
                 fd=r.choice([1, 1, 2]), sync=r.random() < .5)
        good = True
        if w['api'] != 'pstream':
            w['form'] = False
        else:
            t = ''.join(s['t'] for s in procs[i - 1]['steps'] if s['fd'] == w['fd'])
            if t and r.random() < .8:
                k = r.randrange(len(t))
                w['txt'] = r.choice([t[k:k + r.choice([1, 2, 3, 6])], ''])
            else:
                w['txt'] = r.choice(['zz', 'abababa'])
                good = w['txt'] in t
        if good and r.random() < .8:
            w['limit'], w['forever'] = 50000, r.random() < .35
        else:
            w['limit'] = r.choice([10, 50, 300, 800, 1500])
        if w['api'] == 'pstream' and r.random() < .1:
            w['abort'] = 'raise'
        elif not w['sync'] and r.random() < .2:
            w.update(abort='cancel', after=r.choice([0, 1, 5, 20, 60]))
        waits.append(w)
    return {'procs': procs, 'waits': waits}


def go(name, prop, res, scratch, driver, cases, per, mc, bound):
    """Each job makes several runs; each run is one trace."""
    jobs = [{'cases': cases[k:k + per]} for k in range(0, len(cases), per)]
    simple.run(name, prop, res, scratch, driver, jobs, 'WaitsTrace', None, mc=mc, bound=bound,
               case_limit=300, split=lambda j, r: list(zip(r['cases'], r['runs'])))


def run_waits(prop, res, scratch):
    th = vp.TIER == 'thorough'
    cases = [case23(vp.rng('C23', i)) for i in range(24000 if th else 3000)]
    go('waits', prop, res, scratch, 'wait_driver', cases, 25, [('WaitsMC', 'WaitsMC.cfg')],
       '%d runs of up to three processes and four waiting or reading threads, paused at random '
       'lines; the protocol for four waiting threads' % len(cases))


def run_ptwaits(prop, res, scratch):
    th = vp.TIER == 'thorough'
    cases = [case29(vp.rng('C29', i)) for i in range(8000 if th else 1200)]
    go('pytest waits', prop, res, scratch, 'ptwait_driver', cases, 12,
       [('WaitsMC', 'WaitsMC.cfg')],
       '%d runs of one or two real processes with up to five waits in threads and coroutines'
       % len(cases))

"""C26: where process output goes (spec LogRoute)."""
import itertools

import simple
import vp

PRESETS = ['screen', 'log', 'both', 'own_log', 'full']
WORDS = ['screen', 'log', 'own_log']


def name(v):
    return {'t': 'name', 'v': v}


def dic(both=(), stdout=(), stderr=(), bad=False):
    return {'t': 'dict', 'both': list(both), 'stdout': list(stdout), 'stderr': list(stderr),
            'bad': bad}


def subsets():
    for n in range(4):
        yield from itertools.combinations(WORDS, n)


def all_options():
    out = [name(v) for v in PRESETS + ['nope', '', 'Screen']]
    for b in subsets():
        for o in subsets():
            for e in subsets():
                out.append(dic(b, o, e))
    out += [dic(['nope']), dic([], ['screen'], ['own-log']), dic(['log'], bad=True), dic([], ['both'])]
    return out


def option(r):
    x = r.random()
    if x < .35:
        return name(r.choice(PRESETS))
    if x < .4:
        return name('nope')

    def some():
        return r.sample(WORDS, r.choice([0, 0, 1, 1, 2, 3]))
    return dic(some(), some(), some() + (['file'] if r.random() < .03 else []),
               bad=r.random() < .03)


NAMES = ['a-1', 'a-2', 'a-1-stdout', 'b.c-3', 'b-3', 'b.c-1']


def direct_jobs(n):
    jobs = []
    # every option, on its own and next to a second process with another one
    opts = all_options()
    for i, o in enumerate(opts):
        r = vp.rng('C26', 'all', i)
        ops = [dict(o='conf', p='a-1', opt=o, spell=i % 16, ov='-'),
               dict(o='conf', p='a-2', opt=r.choice(opts), spell=r.randrange(16), ov='-')]
        if i % 2:
            ops.reverse()
        if i % 3 == 0:
            ops.append(dict(ops[0], spell=r.randrange(16)))
        for k in range(8):
            ops.append(dict(o='line', p='a-%d' % (k % 2 + 1), src=['stdout', 'stderr'][k // 2 % 2],
                            text='~%d' % k))
        ops.append(dict(o='look'))
        jobs.append({'mode': 'direct', 'ops': ops})
    for i in range(n):
        r = vp.rng('C26', 'direct', i)
        names = r.sample(NAMES, r.choice([2, 3, 3, 4]))
        opt = {p: option(r) for p in names}
        ops = []
        for k in range(r.randrange(4, 22)):
            x = r.random()
            p = r.choice(names)
            if x < .3:
                ops.append(dict(o='conf', p=p, opt=opt[p], spell=r.randrange(16), ov='-'))
            elif x < .8:
                ops.append(dict(o='line', p=p, src=r.choice(['stdout', 'stderr']),
                                text='~%d %s' % (k, r.choice(['', 'x', '{msg}', '%s %d', ' é']))))
            elif x < .88:
                ops.append(dict(o='msg', p=p if p != 'a-1-stdout' else 'launch', text='~%d' % k))
            elif x < .91:
                ops.append(dict(o='reset'))
                opt = {p: option(r) for p in names}
            elif x < .95:
                ops.append(dict(o='rotate', p=r.choice(
                    ['launch.log', p + '.log', p + '-stdout.log', p + '-stderr.log'])))
            else:
                ops.append(dict(o='look'))
        ops.append(dict(o='look'))
        jobs.append({'mode': 'direct', 'ops': ops})
    return jobs


def service_jobs(n):
    jobs = []
    for i in range(n):
        r = vp.rng('C26', 'service', i)
        k = r.choice([1, 1, 2, 2, 3, 4])
        times = r.sample(range(1, 200), 80)
        procs = []
        for j in range(k):
            o = option(r)
            if k > 1 and (o['t'] == 'name' and o['v'] == 'nope' or o['t'] == 'dict' and (
                    o['bad'] or 'file' in o['stderr'])):
                o = name('full')
            at = 0 if r.random() < .5 else 5 + j
            # (all times of the run differ: an agenda counts from the start of the process)
            mine = sorted(times[j * 20:j * 20 + r.choice([1, 3, 6, 10])])
            ov = '-' if r.random() < .75 else r.choice(PRESETS + ([] if k > 1 else ['nope']))
            default = r.random() < .15
            procs.append({
                'p': 'p%d' % j, 'opt': name('log') if default else o, 'default': default,
                'spell': r.randrange(16), 'at': at, 'ov': ov, 'end': 300 + j,
                'agenda': [{'t': 10 + 5 * t + j - at, 'fd': r.choice([1, 2]),
                            'text': ''.join('~%d.%d.%d\n' % (j, t, y)
                                            for y in range(r.choice([1, 1, 2])))}
                           for t in mine]})
            procs[-1]['end'] = 1200 + j
        jobs.append({'mode': 'service', 'procs': procs})
    return jobs


def run_log(prop, res, scratch):
    th = vp.TIER == 'thorough'
    jobs = direct_jobs(20000 if th else 2500) + service_jobs(8000 if th else 800)
    simple.run('log routing', prop, res, scratch, 'log_driver', jobs, 'LogRouteTrace',
               lambda j, r: {'ops': r['ops']},
               mc=[('LogRouteMC', 'LogRouteMCdeep.cfg' if th else 'LogRouteMC.cfg')],
               bound='every sequence of at most %d operations' % (5 if th else 4))

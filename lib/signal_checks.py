"""C19: signal managers (spec Signals)."""
import itertools

import simple
import vp

SIGS = ['USR1', 'USR2', 'WINCH']


def ending(opened, extra):
    """Everything is looked at and closed, in order."""
    ops = [dict(o='spin', loop=k) for k in 'ab']
    for m in opened:
        ops += [dict(o='exit', m=m), dict(o='look')]
    ops += extra
    ops += [dict(o='kill', sig='USR1')] + [dict(o='spin', loop=k) for k in 'aba']
    ops += [dict(o='read', w=w) for w in ('u1', 'u2')]
    return ops + [dict(o='look')]


def exhaustive(n):
    """Every sequence of n operations of a small alphabet, between a fixed start and end."""
    base = [dict(o='handle', m=m, sig='USR1', h='h') for m in ('m1a', 'm2b', 'm3a')]
    alpha = ['E1', 'E2', 'E3', 'X', 'K', 'Sa', 'Sb', 'U', 'H']
    jobs = []
    for seq in itertools.product(alpha, repeat=n):
        opened = []
        ops = [dict(o='setfd', w='u1')] + list(base)
        ok = True
        for t in seq:
            if t[0] == 'E':
                m = {'1': 'm1a', '2': 'm2b', '3': 'm3a'}[t[1]]
                if m in opened:
                    ok = False
                    break
                opened.insert(0, m)
                ops.append(dict(o='enter', m=m))
            elif t == 'X':
                if not opened:
                    ok = False
                    break
                ops.append(dict(o='exit', m=opened.pop(0)))
            elif t == 'K':
                ops.append(dict(o='kill', sig='USR1'))
            elif t[0] == 'S':
                ops.append(dict(o='spin', loop=t[1]))
            elif t == 'U':
                ops.append(dict(o='setfd', w='u2'))
            else:
                ops.append(dict(o='handle', m=opened[0] if opened else 'm1a', sig='USR1',
                                h='none'))
        if ok and any(t[0] == 'E' for t in seq) and 'K' in seq:
            jobs.append({'ops': ops + ending(opened, []), 'acts': []})
    return jobs


def random_job(i):
    r = vp.rng('C19', i)
    names = ['m1a', 'm2b', 'm3a', 'm4a', 'm5b'][:r.choice([2, 3, 4, 5])]
    hs = ['h1', 'h2', 'h3']
    acts = [{'name': 'h3', 't': 'handle', 'm': r.choice(names), 'sig': r.choice(SIGS),
             'h': r.choice(['none', 'h1', 'h2'])}]
    ops, opened = [], []
    for m in names:
        for s in SIGS:
            if r.random() < .6:
                ops.append(dict(o='handle', m=m, sig=s, h=r.choice(hs), int=r.random() < .5))
    for k in range(r.randrange(5, 40)):
        x = r.random()
        rest = [m for m in names if m not in opened]
        if x < .18 and rest:
            opened.insert(0, r.choice(rest))
            ops.append(dict(o='enter', m=opened[0]))
        elif x < .28 and opened:
            ops.append(dict(o='exit', m=opened.pop(0)))
        elif x < .5:
            ops.append(dict(o='kill', sig=r.choice(SIGS)))
        elif x < .7:
            ops.append(dict(o='spin', loop=r.choice('ab')))
        elif x < .78:
            ops.append(dict(o='handle', m=r.choice(names), sig=r.choice(SIGS),
                            h=r.choice(hs + ['none', 'none']), int=r.random() < .5))
        elif x < .84:
            ops.append(dict(o='setfd', w=r.choice(['u1', 'u2', 'none'])))
        elif x < .9:
            ops.append(dict(o='read', w=r.choice(['u1', 'u2'])))
        elif x < .93:
            ops.append(dict(o='refused', what=r.choice(['thread', 'setfd', 'callable', 'signum']),
                            m=r.choice(names)))
        elif x < .94:
            ops.append(dict(o='service', sigs=[r.choice(SIGS) for _ in range(r.choice([0, 1, 3]))],
                            late=r.random() < .5))
        else:
            ops.append(dict(o='look'))
    return {'ops': ops + ending(opened, []), 'acts': acts}


def run_signals(prop, res, scratch):
    th = vp.TIER == 'thorough'
    fam = exhaustive(6 if th else 5)
    cap = 60000 if th else 6000
    full = len(fam)
    if full > cap:
        fam = vp.rng('C19', 'fam').sample(fam, cap)
    jobs = fam + [random_job(i) for i in range(20000 if th else 2000)]
    simple.run('signal managers', prop, res, scratch, 'signal_driver', jobs, 'SignalsTrace',
               lambda j, r: {'ops': r['ops'], 'acts': r['acts']},
               mc=[('SignalsMC', 'SignalsMCdeep.cfg' if th else 'SignalsMC.cfg')],
               bound='model: every sequence of at most %d operations with %d signals; real runs: '
                     '%d of the %d sequences of %d operations' % (
                         14 if th else 11, 3 if th else 2, len(fam), full, 6 if th else 5))

"""C18: a launch service used from several threads (spec Threads)."""
import simple
import vp


def job(threads, swi=True, points=(), gated=(), before=(), inside=None):
    return {'threads': threads, 'swi': swi, 'points': [list(p) for p in points],
            'gated': list(gated), 'before': list(before), 'inside': inside or {}}


def emit(e, inc=False):
    return {'kind': 'emit', 'e': e, 'inc': inc}


SHUT = {'kind': 'shut'}
RUN = {'kind': 'run'}
# one other thread: what it does, and what the main thread does
SHORT = [[emit('a')], [SHUT], [emit('a', True)], [SHUT, emit('a')], [emit('a'), SHUT], [RUN, emit('a')]]


def pairs(lines):
    """
    The other thread starts at line k of the main thread and is itself preempted at its line j.

    lines: how many lines the main thread executes without the other one.
    """
    for prog in SHORT:
        for swi in (True, False):
            for before in ([], [emit('p')], [emit('in')]):
                inside = {'in': [emit('q'), RUN, emit('r', True)]}
                for k in range(1, lines + 1):
                    for j in [0] + list(range(1, 40)):
                        yield job([prog], swi, [(0, k, 1)] + ([(1, j, -1)] if j else []), [1],
                                  before, inside)


def random_job(i):
    r = vp.rng('C18', i)
    n = r.choice([1, 2, 2, 3])
    c = [0]

    def name():
        c[0] += 1
        return r.choice(['e%d', 'e%d', 'in%d']) % c[0]

    def op():
        x = r.random()
        return emit(name(), r.random() < .3) if x < .65 else SHUT if x < .88 else RUN
    threads = [[op() for _ in range(r.choice([1, 2, 3]))] for _ in range(n)]
    before = [emit(name(), r.random() < .3) for _ in range(r.choice([0, 1, 2]))]
    inside = {}
    for prog in threads + [before]:
        for o in prog:
            if o.get('e', '').startswith('in') and not o['inc']:
                inside[o['e']] = [r.choice([emit('q' + o['e']), emit('r' + o['e'], True), RUN])
                                  for _ in range(r.choice([1, 2]))]
                if len({str(x) for x in inside[o['e']]}) < len(inside[o['e']]):
                    inside[o['e']] = inside[o['e']][:1]
    points = []
    gated = [t + 1 for t in range(n) if r.random() < .7]
    for t in gated:
        points.append((0, r.randrange(1, 220), t))
    for _ in range(r.choice([0, 1, 2, 3])):
        t = r.randrange(0, n + 1)
        points.append((t, r.randrange(1, 220 if t == 0 else 45), -1))
    return job(threads, r.random() < .6, points, gated, before, inside)


def run_threads(prop, res, scratch):
    th = vp.TIER == 'thorough'
    probe = vp.run_real('thread_driver', [job([])], scratch)
    lines = min(400, probe[0].get('lines', {}).get('0', 200) + 10)
    every = list(pairs(lines))
    n = 40000 if th else 3500
    fam = vp.rng('C18', 'pairs').sample(every, min(n, len(every)))
    jobs = fam + [random_job(i) for i in range(30000 if th else 2500)]
    simple.run('threads', prop, res, scratch, 'thread_driver', jobs, 'ThreadsTrace',
               lambda j, r: {'ops': r['ops']}, mc=[('ThreadsMC', 'ThreadsMC.cfg')],
               case_limit=60, bound='%d of the %d pairs of preemption points (%d lines of the '
               'main thread), random ones with up to 3 threads' % (len(fam), len(every), lines))

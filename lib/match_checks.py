"""C25: assertions on output and exit codes (spec Match)."""
import itertools
import re

import simple
import vp

WORDS = ['a', 'b', 'ab', 'ba', 'aa', 'x', ' ', '1', '{}', 'pid', 'hello', 'b a']
TEXT = WORDS + ['\n', '\n', '\n', 'aab', '\r\n', '~[1m', '~[31m', '~[0m', '~', '~[123m', '[']
NOFILTER = {'on': False, 'prefixes': [], 'patterns': []}
ANY = {'by': 'all', 'i': 1, 'name': '', 'args': 'any', 'list': [], 'single': False,
       'strict': False}


def text(r, n):
    t = ''.join(r.choice(TEXT) for _ in range(r.randrange(n + 1)))
    while '\r\r\n' in t:
        t = t.replace('\r\r\n', '\r\n')
    return t


def pattern(r, extra='\n'):
    out = []
    for _ in range(r.choice([1, 1, 2, 3])):
        x = r.random()
        if x < .6:
            it = {'cs': r.choice('abx1 '), 'neg': False}
        elif x < .8:
            it = {'cs': r.choice(['ab', 'a1', 'bx ', '0123456789']), 'neg': False}
        else:
            it = {'cs': r.choice(['\n', 'a\n', 'b', 'x\n']), 'neg': True}
        rep = r.choice(['1', '1', '1', '?', '*', '+'])
        if rep == '+':
            out += [dict(it, rep='1'), dict(it, rep='*')]
        else:
            out.append(dict(it, rep=rep))
    return out


def whole(s):
    """Without halves of characters."""
    return re.sub(r'\{(?!\})|(?<!\{)\}', '', s)


def piece(r, t, re_ok=True):
    x = r.random()
    if x < .35 and re_ok:
        return {'t': 're', 'items': pattern(r)}
    if x < .75 and t:
        i = r.randrange(len(t))
        s = t[i:i + r.choice([1, 2, 3, 5])]
        # whole characters only, and what is searched is already clean
        s = whole(s.replace('\r', ''))
        if s and '~' not in s:
            return {'t': 'str', 's': s}
    return {'t': 'str', 's': r.choice(WORDS + ['', '\n', 'a\nb', 'zz'])}


def ordered(r, t):
    """Texts that occur in this order, mostly."""
    out, i = [], 0
    for _ in range(r.choice([2, 3, 4])):
        if i < len(t) and r.random() < .85:
            i += r.randrange(3)
            n = r.choice([1, 2, 3])
            s = t[i:i + n]
            i += n
            if s and not set(s) & set('~{}\r'):
                out.append({'t': 'str', 's': s})
                continue
        out.append(piece(r, t))
    return out


def expected(r, t):
    if r.random() < .5:
        return piece(r, t)
    l = ordered(r, t)
    if r.random() < .15:
        l.insert(r.randrange(len(l) + 1), {'t': 'list', 'l': ordered(r, t)})
    return {'t': 'list', 'l': l}


def filters(r):
    if r.random() < .6:
        return NOFILTER
    return {'on': True, 'prefixes': r.sample(['a', 'pid', '1', 'b ', '{}', ''], r.choice([0, 1, 2]))
            if r.random() < .95 else [], 'patterns': [pattern(r) for _ in range(r.choice([0, 0, 1]))]}


def processes(r):
    names = r.sample(['p-1', 'p-2', 'proc-1', 'proc-10', 'q', 'p'], r.choice([1, 2, 2, 3]))
    return [{'name': n, 'args': r.sample(['--a', '--ab', 'x', '-v'], r.choice([0, 0, 1, 2]))}
            for n in names]


def selected(r, procs, one=False):
    by = r.choice(['action', 'name', 'name', 'name'] + ([] if one else ['all']))
    k = r.choice(['any', 'any', 'none', 'list'])
    li = r.sample(['--a', '--ab', 'x', '-v', '--'], r.choice([0, 1, 1, 2])) if k == 'list' else []
    return {'by': by, 'i': r.randrange(len(procs)) + 1,
            'name': r.choice([p['name'] for p in procs] + ['p', 'proc', 'proc-1', '', 'zz', '1']),
            'args': k, 'list': li, 'single': len(li) == 1 and r.random() < .5,
            'strict': True if one else r.random() < .6}


def chunks(r, procs, n=6):
    """Texts of the streams cut anywhere, even inside a character, and interleaved."""
    streams = []
    for p in range(1, len(procs) + 1):
        for fd in (1, 2):
            t = text(r, n) if r.random() < .75 else ''
            cut = []
            while t:
                k = r.choice([1, 1, 2, 3, 5, 8])
                cut.append({'p': p, 'fd': fd, 't': t[:k]})
                t = t[k:]
            streams.append(cut)
    out = []
    while any(streams):
        s = r.choice([s for s in streams if s])
        for _ in range(min(len(s), r.choice([1, 1, 2, 4]))):
            out.append(s.pop(0))
    return out


def all_of(cs, fd=None):
    return ''.join(c['t'] for c in cs if fd in (None, c['fd']))


BASE = {'procs': [], 'chunks': [], 'sel': ANY, 'filter': NOFILTER, 'strip': False, 'strict': False,
        'fd': 1, 'active': False, 'tracked': False, 'e': {'t': 'str', 's': ''}, 'text': '',
        'lines': [], 'given': 'text', 'ended': [], 'allowed': [], 'wants': [], 'txt': ''}


def make(r):
    o = r.choice(['text', 'text', 'lines', 'filter', 'assert', 'assert', 'assert', 'exit', 'seq',
                  'seq', 'proxy', 'ready', 'ready'])
    op = dict(BASE, o=o)
    if o in ('text', 'lines'):
        t = text(r, 9)
        op['strip'], op['strict'] = r.random() < .7, r.random() < .35
        op['given'] = r.choice(['text', 'lines'])
        if op['given'] == 'lines':
            op['lines'] = t.replace('\r', '').split('\n')
        else:
            op['text'] = t
        op['e'] = expected(r, t)
        if op['strict'] and r.random() < .5:
            # likely to be accepted
            u = op['text'] if op['given'] == 'text' else '\n'.join(op['lines'])
            ls = op['lines'] if op['given'] == 'lines' else u.split('\n')
            clean = not set(u) & set('~\r{}')
            if o == 'lines' and clean:
                k = r.randrange(len(ls)) + 1
                op['e'] = {'t': 'list', 'l': [{'t': 'str', 's': x[:r.choice([1, 9])]}
                                              for x in ls[:k]]}
                if len(set(ls)) == 1 and r.random() < .5:
                    op['e'] = {'t': 'str', 's': ls[0]}
            elif clean:
                k = r.randrange(len(u) + 1)
                op['e'] = {'t': 'str', 's': u[:r.choice([k, len(u)])]} if r.random() < .5 else \
                    {'t': 'list', 'l': [{'t': 'str', 's': u[:k]}, {'t': 'str', 's': u[k:k + 2]}]}
        return op
    if o == 'filter':
        op['text'], op['filter'] = text(r, 9), dict(filters(r), on=True)
        return op
    op['procs'] = processes(r)
    op['active'] = r.random() < .5
    if o == 'exit':
        op['ended'] = [{'p': p, 'over': r.random() < .9, 'code': r.choice([0, 0, 1, 130, -2])}
                       for p in range(1, len(op['procs']) + 1) if r.random() < .85]
        op['allowed'] = r.choice([[0], [0], [0, 1], [130, 0], [-2, 1, 0], [1]])
        op['sel'] = selected(r, op['procs'])
        return op
    op['chunks'] = chunks(r, op['procs'])
    op['tracked'] = r.random() < .5
    if o == 'proxy':
        have = sorted({c['p'] for c in op['chunks']})
        if op['tracked']:
            have = list(range(1, len(op['procs']) + 1))
        if not have:
            return make(r)
        op.update(active=True, fd=r.choice([0, 1, 2]), filter=filters(r),
                  sel=dict(ANY, by='action', i=r.choice(have)))
        if op['fd'] == 0:
            # (a character completed after output of the other stream is not modelled)
            op['chunks'] = [dict(c, t=c['t'].replace('{', 'k').replace('}', 'k'))
                            for c in op['chunks']]
        return op
    if o == 'ready':
        t = all_of(op['chunks'], 1)
        if r.random() < .5:
            op['sel'] = dict(ANY, by='action', i=r.randrange(len(op['procs'])) + 1)
        e = piece(r, t, re_ok=False)
        op['txt'] = e['s'] or 'a'
        return op
    op['sel'] = selected(r, op['procs'], one=o == 'seq')
    if o == 'seq':
        if r.random() < .7:
            op['sel'] = dict(op['sel'], by='action')
        p = op['sel']['i']
        t = all_of([c for c in op['chunks'] if c['p'] == p])
        op['wants'] = [e['s'] for e in ordered(r, t) + [piece(r, t, False)] if e['t'] == 'str']
        return op
    op['fd'] = r.choice([1, 1, 2])
    op['strip'] = r.random() < .6
    op['filter'] = filters(r)
    op['e'] = expected(r, all_of(op['chunks'], op['fd']))
    return op


def small():
    """Every text over a small alphabet with every split in two, and every search text."""
    for n in range(1, 5):
        for c in itertools.product(['a', 'b', '\n'], repeat=n):
            t = ''.join(c)
            for m in (1, 2):
                for w in itertools.product('ab', repeat=m):
                    w = ''.join(w)
                    yield dict(BASE, o='text', text=t, e={'t': 'list', 'l': [
                        {'t': 'str', 's': x} for x in w]}, strict=n % 2 == 0)
                    for k in range(n if n < 4 else 1):
                        cs = [{'p': 1, 'fd': 1, 't': x} for x in (t[:k], t[k:]) if x]
                        p = [{'name': 'p-1', 'args': []}]
                        yield dict(BASE, o='seq', procs=p, chunks=cs, wants=[w[0], w],
                                   sel=dict(ANY, by='action', strict=True))
                        yield dict(BASE, o='ready', procs=p, chunks=cs, txt=w)


def run_match(prop, res, scratch):
    th = vp.TIER == 'thorough'
    ops = list(small()) + [make(vp.rng('C25', i)) for i in range(200000 if th else 14000)]
    n = 150
    jobs = [{'ops': ops[k:k + n]} for k in range(0, len(ops), n)]
    simple.run('assertions', prop, res, scratch, 'match_driver', jobs, 'MatchTrace',
               lambda j, r: {'ops': r['ops']},
               mc=[('MatchMC', 'MatchMCdeep.cfg' if th else 'MatchMC.cfg')],
               bound='all texts of up to 4 characters in two chunks, %d random ones' % len(ops))

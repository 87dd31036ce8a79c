"""Checks decided with spec/Engine.tla: model checking of bounded families plus conformance."""
import copy
import itertools
import json
import os
import time

import gen_engine
import vp

NONE = {'t': 'none'}


def T(s):
    return [{'t': 't', 'v': s}]


def LC(n, d=None):
    return [{'t': 'lc', 'n': T(n), 'hd': d is not None, 'd': T(d) if d else []}]


def ENV(n, d=None):
    return [{'t': 'env', 'n': T(n), 'hd': d is not None, 'd': T(d) if d else []}]


def N(k, **kw):
    n = {'k': k, 'id': '', 'cond': NONE}
    n.update(kw)
    return n


def IF(v, k='if'):
    return {'t': k, 'v': v}


def EQ(n, v, k='eq'):
    return {'t': k, 'n': n, 'isnone': v is None, 'v': [] if v is None else v}


def setlc(n, v, **kw):
    return N('setlc', n=T(n), v=v, **kw)


def setenv(n, v, **kw):
    return N('setenv', n=T(n), v=v, **kw)


def emit(name, **kw):
    return N('emit', name=name, **kw)


def H(m, body=(), once=False, style='list'):
    return {'id': 'H?', 'once': once, 'do': 'nodes', 'key': '', 'style': style,
            'm': m, 'body': [N('probe')] + list(body)}


def usr(*names):
    return {'t': 'usr', 'names': list(names)}


def reg(h, app=False, **kw):
    return N('reg', app=app, h=h, **kw)


def unreg(h):
    return N('unreg', hid=h)


def group(scoped=True, fwd=True, lcs=(), **kw):
    return ('(', N('group', scoped=scoped, fwd=fwd, lcs=[[a, b] for a, b in lcs], body=[], **kw))


def inc(args=(), file='@/d1/f1.py', **kw):
    d = file if '/no/' in file else file.rsplit('/', 1)[0]
    return ('(', N('inc', args=[[a, b] for a, b in args], file=file, dir=d, body=[], **kw))


def timer(ms, cos=True, body=(), **kw):
    return N('timer', cos=cos, period=T('%.3f' % (ms / 1000.0)), body=[N('probe')] + list(body),
             **kw)


def co(*steps):
    out = []
    for s in steps:
        if isinstance(s, int):
            out.append({'k': 'sleep', 'd': s})
        elif s == 'raise':
            out.append({'k': 'raise'})
        elif s == 'mark':
            out.append({'k': 'mark', 'id': 'm'})
        else:
            out.append({'k': 'emit', 'name': s, 'id': 'ce' + s})
    return N('co', steps=out)


def declarg(name, d=None, choices=None, **kw):
    return N('declarg', name=name, hd=d is not None, d=d or [], hc=choices is not None,
             choices=choices or [], **kw)


def X(t, code=0):
    return {'t': t, 'k': 'exit', 'fd': 0, 'text': '', 'code': code}


def D(t, text, fd=1):
    return {'t': t, 'k': 'data', 'fd': fd, 'text': text, 'code': 0}


def ON(**kw):
    """Reactions to signals: INT=(delay, code) or (delay, code, (t, fd, text)...)."""
    return {'SIG' + k: {'d': v[0], 'code': v[1],
                        'tail': [{'t': a, 'fd': b, 'text': c} for a, b, c in v[2:]]}
            for k, v in kw.items()}


def S(*agenda, latency=0, fail=False, lag=0, on=None):
    return {'latency': latency, 'fail': fail, 'lag': lag, 'agenda': list(agenda), 'on': on or {}}


def proc(*script, cmd=('prog',), **kw):
    d = dict(cmd=[w if isinstance(w, list) else T(w) for w in cmd] + [T('#?')],
             haspf=True, prefix=LC('launch-prefix', ''), pfilter=LC('launch-prefix-filter', ''),
             hasname=False, name=[], hascwd=False, cwd=[], hasenv=False, env=[], addenv=[],
             resp=T('false'), delay=0, max=-1, cached=False, badout=False, shell=False,
             tt=LC('sigterm_timeout', '5'), kt=LC('sigkill_timeout', '5'), onexit=[],
             script=list(script) or [S(X(5))])
    d.update(kw)
    return N('proc', **d)


def sh(*ids):
    return N('pshut', m={'t': 'ids', 'ids': list(ids)} if ids else {'t': 'all'})


def sg(sig, **m):
    return N('psig', sig=sig, m=m)


def pev(k, *ids, **kw):
    return dict({'t': 'pev', 'k': k, 'any': not ids, 'ids': list(ids)}, **kw)


CLOSE = (')',)
AGAIN = ('=',)      # the first node of the block again, the same object
SPLIT = ('|',)


def assemble(tokens, probes):
    """Nested program for a token string, or None if its brackets do not match."""
    n = [0, 0, 0, 0]
    hs = []

    def fresh(node):
        node = copy.deepcopy(node)

        def walk(x, top):
            if isinstance(x, list):
                for y in x:
                    walk(y, top)
            elif isinstance(x, dict):
                if 'k' in x and 'cond' in x:
                    inh = x.get('_h')
                    if x['k'] == 'timer':
                        n[1] += 1
                        x['id'] = 'T%d' % n[1]
                    elif x['k'] == 'proc':
                        n[3] += 1
                        x['id'] = 'P%d' % n[3]
                        x['cmd'][-1] = T('#' + x['id'])
                    elif x['k'] == 'co':
                        n[2] += 1
                        x['id'] = 'C%d' % n[2]
                        for s in x['steps']:
                            if 'id' in s:
                                s['id'] += x['id']
                    else:
                        n[0] += 1
                        x['id'] = ('h:' if top else '') + 'n%d' % n[0]
                    if x['k'] == 'reg':
                        hs.append(1)
                        x['h']['id'] = 'H%d' % len(hs)
                        if x['h']['m']['t'] == 'cmp':
                            walk(x['h']['body'], True)
                            return
                for v in x.values():
                    walk(v, top)
        walk(node, False)
        return node

    def probe(i=None):
        if not probes:
            return []
        n[0] += 1
        return [{'k': 'probe', 'id': i or 'p%d' % n[0], 'cond': NONE}]
    pre = [[]]
    stack = []
    cur = pre[0]
    ng = 0
    for t in tokens:
        if t is SPLIT:
            if stack:
                return None
            pre.append([])
            cur = pre[-1]
        elif t is CLOSE:
            if not stack:
                return None
            cur, g = stack.pop()
            cur += probe(g and '>' + g)
        elif t is AGAIN:
            xs = [x for x in cur if x['k'] != 'probe' and gen_engine.Gen.simple(x)]
            if not xs:
                return None
            xs[0]['shared'] = True
            cur.append(copy.deepcopy(xs[0]))
            cur += probe()
        elif isinstance(t, tuple):
            node = fresh(t[1])
            g = None
            if node['k'] == 'group' and node['scoped'] and probes:
                ng += 1
                g = 'g%d' % ng
                cur += probe('<' + g)
            cur.append(node)
            stack.append((cur, g))
            cur = node['body']
        else:
            node = fresh(t)
            cur.append(node)
            cur += probe()
    if stack:
        return None
    secs = {}

    def findsecs(x):
        if isinstance(x, dict):
            texts = []
            if x.get('k') == 'timer':
                texts = x['period']
            elif x.get('k') == 'proc':
                texts = x['tt'] + x['kt']
            elif x.get('k') == 'setlc' and x['n'][0]['v'].endswith('_timeout'):
                texts = x['v']
            for p in texts:
                p = p['v'] if p['t'] == 't' else p['d'][0]['v'] if p['t'] == 'lc' else None
                if p is not None:
                    secs[p] = int(round(float(p) * 1000))
            for v in x.values():
                findsecs(v)
        elif isinstance(x, list):
            for v in x:
                findsecs(v)
    findsecs(pre)
    return {'pre': [{'k': 'inc', 'body': b} for b in pre], 'lc0': [], 'env0': [], 'ext': [],
            'swi': True, 'nonint': False, 'secs': sorted([k, v] for k, v in secs.items())}


def family(alpha, k, probes=True, must=None, over=None, prefix=()):
    """Every balanced token string of length at most k."""
    out = []
    for m in range(1, k + 1):
        for toks in itertools.product(alpha, repeat=m):
            if must and not must(toks):
                continue
            p = assemble(tuple(prefix) + toks, probes)
            if p is not None:
                p.update(over or {})
                out.append(p)
    return out


# --- what is explored for each property ---------------------------------------------------------
def fam_C01(k):
    a = [emit('E0'), emit('E1'), reg(H(usr('E0'))), reg(H(usr('E0', 'E1')), app=True),
         reg(H(usr('E0'), [emit('E1'), emit('E2')])), reg(H(usr('E1'), [emit('E2')]), app=True),
         reg(H(usr('E2', 'E1'))), SPLIT, AGAIN]
    return family(a, k, probes=False)


def fam_C02(k):
    a = [emit('E0'), emit('E0'), reg(H(usr('E0'), once=True)), reg(H(usr('E0'), [emit('E1')])),
         reg(H(usr('E0'), [reg(H(usr('E0', 'E1')))])), reg(H(usr('E0'), [unreg('H1')])),
         reg(H(usr('E0', 'E1'), once=True), app=True), unreg('H1'), unreg('H2')]
    return family(a[1:], k, probes=False)


def fam_C03(k):
    a = [N('probe'), ('(', N('fn', body=[])), ('(', N('desc', body=[])), group(), inc(),
         CLOSE, N('raise'), reg(H(usr('E0'), [N('raise'), N('probe')])), emit('E0'), SPLIT, AGAIN]
    return family(a, k, probes=False)


def fam_C04(k):
    a = [setlc('a', T('1')), setlc('a', LC('b', '') + T('2')), setlc('b', LC('a', 'z') + T('3')),
         N('unsetlc', n=T('a')), N('resetlc', keep=[[T('b'), LC('a', 'd')]]),
         group(), group(lcs=[(T('a'), LC('a', 'u') + T('4')), (T('b'), LC('a', 'v'))]),
         group(fwd=False, lcs=[(T('b'), LC('a', 'w') + T('5'))]), group(fwd=False),
         group(scoped=False, lcs=[(T('a'), T('6'))]), group(scoped=False, fwd=False),
         inc([(T('a'), LC('b', '') + T('7'))]), CLOSE, AGAIN]
    return family(a, k)


def fam_C05(k):
    a = [setenv('VE_X', T('1')), setenv('VE_Y', ENV('VE_X', 'd') + T('2')),
         N('unsetenv', n=T('VE_X')), N('resetenv'),
         N('appendenv', n=T('VE_X'), v=T('3'), pre=True, sep=T(':')),
         N('appendenv', n=T('VE_Y'), v=ENV('VE_X', 'q'), pre=False, sep=T(';')),
         group(), group(fwd=False), group(scoped=False), CLOSE, AGAIN]
    return family(a, k, over={'env0': [['VE_X', '0']]})


def fam_C06(k):
    loc = N('loc', name='l1', v='p')
    a = [emit('E0'), loc, reg(H(usr('E0'), [N('loc', name='l2', v='q'), N('probe')])),
         reg(H(usr('E0'), [N('loc', name='l1', v='r'), N('raise')])),
         reg(H(usr('E0'), [timer(10, body=[N('loc', name='l2', v='t'), N('probe')])])),
         timer(20), inc(), inc(file='@/d2/f2.py'), inc(file='@/no/f3.py'), CLOSE,
         N('glob', name='l1', v='g')]
    def ok(toks):   # a timer in a handler must be executed at most once
        return sum(t is a[0] for t in toks) <= 1 or a[4] not in toks
    return family(a, k, must=ok)


def fam_C07(k):
    out = []
    for word in gen_engine.Gen.BOOLS + gen_engine.Gen.BADBOOLS:
        for kind in ('if', 'unless'):
            for how in ('t', 'lc', 'dlc'):
                v = T(word) if how == 't' else LC('f') if how == 'lc' else LC('nope', word)
                if how == 'dlc' and word == '':
                    continue
                for node in (setlc('x', T('1'), cond=IF(v, kind)),
                             ('(', N('fn', body=[], cond=IF(v, kind))),
                             emit('E0', cond=IF(v, kind))):
                    toks = [setlc('f', T(word)), reg(H(usr('E0'))), node]
                    if isinstance(node, tuple):
                        toks += [setlc('y', T('2')), CLOSE]
                    out.append(assemble(toks, True))
    vals = [None, T(''), T('1'), T('x'), LC('b', ''), LC('b')]
    for kind in ('eq', 'ne'):
        for v in vals:
            for sets in itertools.chain(*(itertools.product(
                    [setlc('a', T('')), setlc('a', T('1')), setlc('b', T('1')),
                     N('unsetlc', n=T('a')), setlc('a', T('x'))], repeat=m) for m in range(k - 1))):
                toks = list(sets) + [setlc('x', T('1'), cond=EQ('a', v, kind))]
                out.append(assemble(toks, True))
    # a condition holds at the moment of the visit; nested and in completion order
    c = IF(LC('f', 'true'))
    a = [setlc('f', T('false')), setlc('f', T('True')), setlc('x', T('1'), cond=c),
         group(cond=c), CLOSE, inc(cond=IF(LC('f', '0'), 'unless')),
         reg(H({'t': 'cmp', 'any': True, 'ids': []}), cond=c), AGAIN]
    return out + family(a, k)


def fam_C08(k):
    a = [declarg('a'), declarg('a', T('1')), declarg('a', LC('b', '') + T('2')),
         declarg('a', T('1'), ['1', '2']), declarg('b', T('2'), ['1']),
         declarg('b', None, ['1', '2']),
         setlc('a', T('2')), setlc('b', T('1')), inc([(T('a'), T('2'))]),
         inc([(T('b'), LC('a', '1'))]), inc(), group(), CLOSE,
         inc([(T('a'), T('b')), (LC('a', 'b'), T('1')), (T('c'), LC('b', '2'))]),
         declarg('a', cond=IF(T('false'))), AGAIN]
    return family(a, k)


def fam_C09(k):
    p = proc(S(X(7), on=ON(INT=(2, 0))))
    r = proc(S(X(3, 1)), delay=10, resp=T('true'), onexit=[N('probe')])
    a = [N('shutdown'), N('raise'), timer(10), timer(10, cos=False), co('mark', 5, 'mark'),
         reg(H({'t': 'shut'})), co('raise'), co(5, 'raise'), p, r,
         timer(10, cos=False, body=[p])]
    def ends(toks):   # (a process that is restarted for ever is stopped by somebody)
        return r not in toks or any(x in toks for x in (a[0], a[1], a[6], a[7]))
    out = family(a, k, probes=False, must=ends)
    for t in (0, 5, 10, 7, 20):
        for p in family(a, k - 1, probes=False):
            q = copy.deepcopy(p)
            q['ext'] = [{'t': t, 'k': 'call'}]
            q['swi'] = False
            out.append(q)
            if t == 5:
                q = copy.deepcopy(q)
                q['ext'] = [{'t': t, 'k': 'sigint'}, {'t': 10, 'k': 'sigint'}]
                out.append(q)
    return out


def fam_C10(k):
    a = [timer(10), timer(10, body=[N('raise')]), co(5), co(10, 'raise'), co('raise'), co('E0'),
         reg(H(usr('E0'), [N('raise')])), N('raise'), emit('E0'), timer(15, cos=False),
         proc(S(D(3, 'a'), X(12), on=ON(TERM=(2, 0))), onexit=[emit('E0')],
              tt=T('0.004'), kt=T('0.003')), proc(S(fail=True))]
    out = family(a, k, probes=False)
    out += family(a, k - 1, probes=False, over={'swi': False, 'ext': [{'t': 12, 'k': 'sigint'}]})
    return out


def fam_C16(k):
    a = [timer(10), timer(20), timer(10, cos=False), timer(0),
         N('cancel', key='T1'), N('cancel', key='T2'), timer(5, body=[N('cancel', key='T2')]),
         timer(10, body=[N('cancel', key='T1'), N('cancel', key='T2')]), N('shutdown'),
         reg(H({'t': 'timer'}))]
    out = family(a, k, probes=False)
    for t in (0, 5, 10, 15):
        out += family(a[:-2], k - 1, probes=False, over={'ext': [{'t': t, 'k': 'call'}]})
    return out


def fam_C28(k):
    def cmp(*ids):
        return {'t': 'cmp', 'any': not ids, 'ids': list(ids)}
    a = [reg(H(cmp(), once=True)), reg(H(cmp('T1', 'C1'), style='obj')), reg(H(cmp('n1', 'n3')), app=True),
         N('probe'), N('raise'), timer(10), co(5), co('raise'), N('probe', cond=IF(T('false'))),
         N('cancel', key='T1'), N('shutdown'), proc(S(X(5, 1)))]
    return family(a, k, probes=False)


def fam_C11(k):
    a = [proc(S(D(0, 'a\n'), D(3, 'b', 2), D(4, 'c'), X(8))),
         proc(S(D(1, 'x\n'), X(6, 3), latency=4), S(X(2), D(1, 'y')), resp=T('true'), max=1,
              onexit=[N('probe')]),
         proc(S(fail=True, latency=2), onexit=[N('probe')]), proc(S(X(1, -11), D(0, 'q'), lag=3)),
         proc(S(D(2, 'w'), on=ON(INT=(3, 0, (1, 1, 'bye'), (2, 2, 'e\n')))),
              onexit=[N('probe'), emit('E0')]),
         reg(H(pev('pstart'))), reg(H(pev('pexit', 'P1'))), reg(H(pev('pio', fd=1))),
         reg(H(pev('pio', 'P2', fd=0), [N('raise')])), timer(3), N('shutdown'),
         reg(H({'t': 'cmp', 'any': False, 'ids': ['P1']}))]
    must = None
    out = family(a, k, probes=False, must=must, over={'ext': [{'t': 30, 'k': 'call'}]})
    out += family(a, k - 1, probes=False, must=must, over={'ext': [{'t': 4, 'k': 'sigint'}]})
    return out


def fam_C12(k):
    """Stop requests of every kind and time against every kind of stubborn process."""
    out = []
    ons = [ON(), ON(INT=(3, 0)), ON(INT=(12, 0)), ON(TERM=(4, 1)), ON(TERM=(7, 1)),
           ON(INT=(15, 0), TERM=(2, 0)), ON(INT=(1, 0, ), TERM=(1, 0))]
    lives = [S(), S(X(9)), S(X(14)), S(X(22)), S(X(9), latency=5), S(latency=5),
             S(fail=True, latency=5), S(X(13), lag=4)]
    waits = [('0.010', '0.006'), ('0.004', '0.020'), ('0.0', '0.010'), ('0.007', '0.0')]
    if k > 3:
        waits += [('5', '5'), ('0.012', '0.003')]
        ons += [ON(INT=(10, 0)), ON(INT=(11, 0, (2, 1, 'x')), TERM=(5, 0))]
        lives += [S(X(1)), S(X(10)), S(X(17)), S(latency=10)]
    reqs = []
    for t in (0, 3, 8, 10, 16):
        reqs += [([], [{'t': t, 'k': 'call'}]), ([], [{'t': t, 'k': 'sigint'}]),
                 ([timer(t, body=[sh()])], [])]
    reqs += [([sh(), sh('P1')], []), ([timer(2, body=[sh()]), timer(4, body=[sh('P1')])], []),
             ([timer(2, body=[sh('P1')])], [{'t': 4, 'k': 'sigint'}]),
             ([], [{'t': 2, 'k': 'sigint'}, {'t': 5, 'k': 'sigint'}]),
             ([timer(2, body=[sh('P2')])], [{'t': 9, 'k': 'call'}]),
             ([sh('P1')], [{'t': 3, 'k': 'call'}]),
             ([timer(3, body=[N('shutdown')]), timer(9, body=[N('shutdown')])], [])]
    for i, (on, life, w, (nodes, ext)) in enumerate(
            itertools.product(ons, lives, waits, reqs)):
        q = dict(life, on=on)
        toks = [proc(q, tt=T(w[0]), kt=T(w[1]))] + nodes
        if i % 3 == 0:
            toks.append(proc(S(X(18)), tt=T('0.003'), kt=T('0.003')))
        p = assemble(toks, False)
        p['ext'] = ext + ([] if life['agenda'] or ext else [{'t': 60, 'k': 'call'}])
        p['nonint'] = i % 2 == 0
        out.append(p)
    # timeouts read from configurations when the process is stopped; restarts
    for ext in ([{'t': 5, 'k': 'call'}], [{'t': 5, 'k': 'sigint'}], [{'t': 11, 'k': 'call'}]):
        for v in ('0.003', '0.015'):
            for n in ('sigterm_timeout', 'sigkill_timeout'):
                for d in (0, 3):
                    toks = [setlc('sigterm_timeout', T('0.006')),
                            proc(S(X(30)), S(X(4))), setlc(n, T(v)),
                            proc(S(X(4)), S(X(40)), resp=T('true'), delay=d)]
                    p = assemble(toks, False)
                    p['ext'] = ext
                    out.append(p)
    return out


def fam_C13(k):
    out = []
    scripts = [[S(X(3))], [S(X(3, 1)), S(X(8))], [S(X(2)), S(fail=True, latency=2)],
               [S(X(4), lag=3)], [S(X(3), latency=4, on=ON(INT=(1, 0)))],
               [S(X(3)), S(X(1)), S(on=ON(INT=(2, 0)))]]
    reqs = [([], [{'t': t, 'k': kk}]) for t in (1, 4, 5, 8, 12, 13, 21) for kk in ('call', 'sigint')]
    reqs += [([timer(t, body=[sh()])], [{'t': 60, 'k': 'call'}]) for t in (0, 4, 9, 12)]
    reqs += [([timer(4, body=[sg('SIGINT', t='all')])], [{'t': 60, 'k': 'call'}]),
             ([], [])]
    for sc, delay, mx, resp, (nodes, ext) in itertools.product(
            scripts, (0, 5, 10), (-1, 0, 1, 2, 3), ('true', 'false'), reqs):
        if not ext and (mx < 0 and resp == 'true' or len(sc) == 3):
            continue
        if resp == 'false' and (delay == 10 or mx > 1 or k < 4 and ext and ext[0]['t'] > 5):
            continue
        p = assemble([proc(*sc, delay=delay, max=mx, resp=T(resp))] + nodes, False)
        p['ext'] = ext
        out.append(p)
    for m in range(1, k):
        for toks in itertools.product(
                [proc(S(X(4)), resp=T('true'), max=1, delay=6), N('shutdown'), sh('P1'),
                 proc(S(X(3, 2)), resp=T('true'), max=2, onexit=[N('probe')]),
                 proc(S(X(4)), resp=LC('rs', 'true'), max=1), setlc('rs', T('false')),
                 setlc('emulate_tty', T('bad')), timer(6, body=[setlc('emulate_tty', T('bad'))]),
                 timer(7, body=[N('shutdown')]), timer(4, cos=False)], repeat=m):
            out.append(assemble(toks, False))
    return out


def chunkings(text):
    """Every division of a text into reads."""
    for bits in itertools.product((0, 1), repeat=max(0, len(text) - 1)):
        parts, cur = [], text[:1]
        for c, b in zip(text[1:], bits):
            if b:
                parts.append(cur)
                cur = c
            else:
                cur += c
        yield parts + ([cur] if cur else [])


def fam_C14(k, cached=False):
    out = []
    for m in range(1, k + 1):
        for text in itertools.product('a\n{}' if m < 4 else 'a\n{', repeat=m):
            for parts in chunkings(''.join(text)):
                ag = [D(i * 2, x) for i, x in enumerate(parts)]
                toks = [proc(S(*ag, X(2 * len(ag) + 1)), fmt=len(parts) == 2, cached=cached)]
                out.append(assemble(toks, False))
    # both streams, several runs and processes
    for ch in itertools.product(['a', 'b\n', '{', '}c'], repeat=3):
        for fds in itertools.product((1, 2), repeat=3):
            ag = [D(2 * i, c, fd) for i, (c, fd) in enumerate(zip(ch, fds))]
            toks = [proc(S(*ag, X(7)), S(D(1, ch[2], fds[0]), X(3)), resp=T('true'), max=1,
                         cached=cached)]
            if fds[0] == 1:
                toks.append(proc(S(D(1, 'x'), D(3, 'y\nz'), X(5)), fmt=True, cached=cached))
            if fds[2] == 2:
                toks.append(timer(4, body=[N('shutdown')]))
            out.append(assemble(toks, False))
    return out


def fam_C15(k):
    out = []
    base = fam_C14(k - 1, cached=True)
    for i, p in enumerate(base):
        q = copy.deepcopy(p)
        body = q['pre'][0]['body']
        if i % 3 == 0:      # (caching changes nothing else)
            for n in body:
                if n['k'] == 'proc':
                    n['cached'] = False
        for j, t in enumerate((0, 1, 3, 4, 6, 9)):
            body.append(dict(timer(t, cos=False), id='Tq%d' % j,
                             body=[N('cacheq', of='P1'), N('cacheq', of='P2')]))
            body[-1]['body'][0]['id'] = 'q%d' % j
            body[-1]['body'][1]['id'] = 'r%d' % j
            q['secs'].append(['%.3f' % (t / 1000), t])
        hid = {'id': 'HQ', 'once': False, 'do': 'nodes', 'key': '', 'style': 'list',
               'm': pev(['pio', 'pexit'][i % 2], 'P1'), 'body': [N('cacheq', of='P1')]}
        if hid['m']['k'] == 'pio':
            hid['m']['fd'] = 0
        hid['body'][0]['id'] = 'hq'
        body.insert(len(body) if i % 4 < 2 else 0, dict(reg(hid), id='nq'))
        out.append(q)
    return out


def fam_C17(k):
    on = ON(INT=(3, 0), TERM=(2, 1), USR1=(5, 7))
    a = [proc(S(D(1, 'a\n'), X(20), on=on), cmd=['/bin/prog']),
         proc(S(D(2, 'b\n', 2), X(9), latency=4, on=on), cmd=['tool'], resp=T('true'), max=1),
         proc(S(fail=True, latency=3), cmd=['prog']),
         sg('SIGINT', t='ids', ids=['P1']), sg('SIGUSR1', t='all'),
         timer(3, body=[sg('SIGTERM', t='pid', of='P1')]),
         timer(6, body=[sg('SIGUSR1', t='name', of='P2')]),
         timer(6, body=[sg('SIGKILL', t='exe', v='prog')]),
         timer(10, body=[sg('SIGUSR1', t='pid', of='P2'), sg('SIGTERM', t='all')]),
         reg(H(pev('pstart', 'P2'), [sg('SIGUSR1', t='pid', of='P2')])),
         reg(H(pev('pexit', 'P1'), [sg('SIGINT', t='ids', ids=['P1', 'P2'])]), app=True),
         reg(H(pev('pio', 'P1', fd=1), [sh('P2')])), reg(H({'t': 'psig'})),
         timer(4, body=[sh('P1')])]
    def many(toks):
        return sum(t in a[:3] for t in toks) >= 1
    return family(a, k, probes=False, must=many)


def fam_C27(k):
    e = [[T('VE_X'), LC('a', '') + T('!')], [LC('n', 'VE_Y'), ENV('VE_X', 'z')]]
    a = [setlc('a', T('1')), setlc('a', T('x y')), setenv('VE_X', T('v')), setlc('n', T('VE_X')),
         setlc('launch-prefix', T('gdb  --args')), setlc('launch-prefix-filter', T('pro')),
         N('unsetenv', n=T('VE_Y')), group(), CLOSE,
         proc(cmd=['/bin/prog', LC('a')]), proc(cmd=['tool', LC('a', 'q'), ''], addenv=e),
         proc(cmd=['prog'], hasenv=True, env=e, addenv=[[T('VE_X'), T('w')]]),
         proc(cmd=['prog'], hasenv=True, env=[], hascwd=True, cwd=T('/w/') + LC('a', 'd')),
         proc(cmd=[LC('a', 'x') + T('/pro'), 'b'], haspf=False, prefix=LC('a', '') + T(' nice'),
              pfilter=[], shell=True),
         proc(S(X(2)), S(X(1)), cmd=['prog', ENV('VE_X', 'none')], resp=T('true'), max=1,
              hasname=True, name=LC('a', 'nm')),
         timer(3, cos=False, body=[setlc('a', T('late')), setenv('VE_X', T('late'))])]
    def some(toks):
        return any(t in a[9:15] for t in toks)
    return family(a, k, probes=False, must=some, over={'env0': [['VE_X', '0'], ['VE_Y', 'y']]})


def as_documents(prog, r):
    """The same program with its descriptions written as launch files."""
    count = [0]

    def walk(x):
        if isinstance(x, list):
            for v in x:
                walk(v)
            return
        if not isinstance(x, dict):
            return
        x.pop('shared', None) if 'cond' in x else None
        if x.get('k') == 'inc' and 'args' in x:
            count[0] += 1
            x['syntax'] = r.choice(['xml', 'yaml'])
            x['file'] = '%s/F%d%s' % (
                x['dir'] if '/no/' not in x['file'] else '@/d4', count[0], r.choice(
                    {'xml': ['.launch.xml', '.xml', '.launch', '.txt', ''],
                     'yaml': ['.launch.yaml', '.yml', '.launch', '.txt', '']}[x['syntax']]))
            x['dir'] = x['file'].rsplit('/', 1)[0]
        if x.get('k') == 'proc':
            x['cached'] = x['hasenv'] = x['fmt'] = False
            x['env'] = []
            if not x['haspf']:      # (quotations in prefixes are not part of the specification)
                x['prefix'] = T(r.choice(['', 'gdb', 'gdb  --args', ' pre $x '])) \
                    if r.random() < .7 else LC('p', 'q')
            for name in ('tt', 'kt'):
                v = x[name][0]
                if v['t'] == 'lc' and v['n'] == T('tmo'):
                    x[name] = v['d']
            if x['onexit'] and r.random() < .6:
                x['onexit'] = [dict(N('shutdown'), id='error')]
        for v in x.values():
            walk(v)
    walk(prog)
    for e in prog['pre']:
        if e['k'] == 'inc':
            e['syntax'] = r.choice(['xml', 'yaml'])
    return prog


def fam_C22(k):
    flag = IF(LC('flag', 'true'))
    a = [setlc('a', LC('b', 'd x') + T("it's $1")), setlc('b', T('a "b" \\'), cond=IF(T('0'), 'unless')),
         setenv('VE_X', ENV('VE_Y', '(z)')), N('unsetenv', n=T('VE_X')),
         N('appendenv', n=T('VE_X'), v=LC('a', ''), pre=True, sep=T(';')),
         N('appendenv', n=T('VE_X'), v=T('w'), pre=False, sep=T(':')),
         N('resetenv'), N('resetlc', keep=[[T('b'), LC('a', 'k')]]), setlc('flag', T(' FALSE ')),
         group(lcs=[(T('a'), T('k v'))], cond=flag), group(scoped=False, fwd=False),
         group(fwd=False, lcs=[(LC('a', 'b'), LC('b', ''))]),
         inc([(T('a'), LC('b', 'f'))]), inc([(T('b'), T('1')), (LC('b', 'c'), T('2'))], cond=flag),
         declarg('a', T('1'), ['1', '2 3']), declarg('b'), declarg('b', [], cond=flag), CLOSE,
         timer(10, cos=False), timer(10, body=[N('shutdown')], cond=flag), N('shutdown', cond=flag),
         proc(S(X(3)), cmd=['pr og', LC('a', "q'r"), '']),
         proc(S(X(2), on=ON(INT=(1, 0))), resp=LC('flag', 'true'), max=1, delay=20,
              cmd=['x', T('$') + LC('a', '')],
              addenv=[[T('VE_Z'), LC('a', ' ')]], shell=True, haspf=False, pfilter=[],
              prefix=T('gdb')),
         proc(S(), tt=T('0.010'), kt=T('0.020'), hasname=True, name=LC('a', 'nm'), hascwd=True,
              cwd=T('/w/') + LC('b', 'x'))]

    def ends(toks):     # (a process that does not exit is stopped by somebody)
        return a[-1] not in toks or any(t in a[19:21] for t in toks)
    import random
    r = random.Random(22)
    return [as_documents(p, r) for p in family(a, k, must=ends)]


BASE = dict(probe=4, group=1, desc=1, fn=2, inc=1, setlc=2, emit=2, reg=2)


def W(**kw):
    d = dict(BASE)
    d.update(kw)
    return d


# property: family, quick / thorough bound, random weights and options, compared fields
PK = dict(usr=2, shut=1, cmp=1, pstart=2, pexit=3, pio=3, psig=1, pshut=1)


def PW(**kw):
    d = dict(probe=1, group=.5, fn=.5, emit=1, reg=2, timer=2, proc=6, psig=1, pshut=1)
    d.update(kw)
    return d


def PO(**kw):
    d = dict(size=9, depth=2, ext=1, npre=[1, 1, 2], hkinds=PK, err=.004)
    d.update(kw)
    return d


LIFE = {'spawn': ('t', 'id'), 'died': ('id', 'inst', 'code', 't')}
EV = {'probe': ('id', 'ev'), 'ret': ('rc',), 'co': ('id', 'n'), 'cocancel': ('id',)}
EVT = {'probe': ('id', 'ev', 't'), 'ret': ('rc', 't'), 'co': ('id', 'n', 't'),
       'cocancel': ('id', 't')}


def F(*ds, **kw):
    out = {}
    for d in ds:
        out.update(d)
    out.update(kw)
    return out


# property: family, quick / thorough bound, random weights and options, compared observations
PLAN = {
    'C01': dict(fam=fam_C01, k=(4, 5), w=W(emit=8, reg=8, unreg=.3, timer=1, co=.5),
                o=dict(npre=[1, 2, 3, 4], append=0.4, err=0.003, cond=0.05), f=EV),
    'C02': dict(fam=fam_C02, k=(4, 5), w=W(emit=6, reg=7, unreg=2),
                o=dict(once=0.5, npre=[1, 2, 3], err=0.003, cond=0.05), f=EV),
    'C03': dict(fam=fam_C03, k=(5, 6), w=W(desc=4, fn=4, group=4, inc=3, timer=1, emit=3, reg=3),
                o=dict(err=0.02, depth=5, size=30), f=EV),
    'C04': dict(fam=fam_C04, k=(4, 5), w=W(setlc=8, unsetlc=2, resetlc=1.5, group=6, inc=2,
                                           pushpop_lc=1, emit=2, reg=2, timer=1, declarg=.5),
                o=dict(err=0.01, depth=4, size=25, cond=0.08),
                f={'probe': ('id', 'lc'), 'ret': ('rc',)}),
    'C05': dict(fam=fam_C05, k=(4, 5), w=W(setenv=8, unsetenv=2, resetenv=1, appendenv=4, group=6,
                                           inc=1, pushpop_env=1, emit=2, reg=2, timer=1),
                o=dict(err=0.01, depth=4, size=25, cond=0.08),
                f={'probe': ('id', 'env'), 'ret': ('rc',)}),
    'C06': dict(fam=fam_C06, k=(4, 5), w=W(loc=5, glob=1, inc=4, emit=5, reg=5, timer=2, group=1),
                o=dict(err=0.02, depth=4, size=25, files=True, npre=[1, 2, 3]),
                f={'probe': ('id', 'loc', 'lc'), 'ret': ('rc',)}),
    'C07': dict(fam=fam_C07, k=(4, 5), w=W(setlc=6, unsetlc=2, group=2, emit=2, reg=2, timer=1,
                                           co=.3, setenv=1),
                o=dict(cond=0.8, badbool=0.1, err=0.0, hkinds={'usr': 6, 'cmp': 3}),
                f=F(EV, probe=('id', 'ev', 'lc'))),
    'C08': dict(fam=fam_C08, k=(4, 5), w=W(declarg=6, inc=5, setlc=4, group=2, unsetlc=1,
                                           resetlc=.5),
                o=dict(args=True, argdef=0.6, argch=0.35, err=0.0, cond=0.15, depth=4),
                f={'probe': ('id', 'lc'), 'ret': ('rc',)}),
    'C09': dict(fam=fam_C09, k=(3, 4), w=W(shutdown=2, timer=4, co=3, emit=2, reg=4, proc=3),
                o=dict(hkinds={'usr': 3, 'shut': 4, 'pexit': 1}, ext=1, err=0.05, coerr=0.2,
                       output=False),
                f=F(EVT, LIFE)),
    'C10': dict(mcw=2, fam=fam_C10, k=(3, 4), w=W(timer=5, co=5, emit=4, reg=4, shutdown=.2, cancel=1,
                                           proc=3, psig=.5),
                o=dict(err=0.05, coerr=0.25, ext=0.3, npre=[1, 2, 3],
                       hkinds={'usr': 8, 'shut': 1, 'cmp': 1, 'pexit': 2, 'pio': 1}),
                f={'ret': ('rc', 't'), 'spawn': ('id', 't'), 'died': ('id', 't'),
                   'co': ('id', 'n', 't'), 'cocancel': ('id', 't')}),
    'C11': dict(mcw=2, fam=fam_C11, k=(3, 4), w=PW(), o=PO(hkinds=dict(pstart=3, pexit=4, pio=4, cmp=1)),
                f={'spawn': ('id',), 'died': ('id', 'inst', 'code'), 'probe': ('id', 'ev'),
                   'ret': ('rc',)}),
    'C12': dict(fam=fam_C12, k=(3, 4), w=PW(pshut=3, psig=.3, setto=1.5, shutdown=.5),
                o=PO(respawn=.15, output=False),
                f=F(LIFE, sig=('id', 'inst', 'sig', 't'), ret=('t',))),
    'C13': dict(mcw=2, fam=fam_C13, k=(3, 4), w=PW(setrs=1, pshut=.6, shutdown=.4, settty=.1),
                o=PO(respawn=.8, output=False),
                f=F(LIFE, ret=('t',))),
    'C14': dict(mcw=2, fam=fam_C14, k=(4, 5), w=PW(psig=.5, pshut=.5, emit=.2),
                o=PO(hkinds={'pio': 1, 'pexit': 1}, err=0),
                f={'spawn': ('id',), 'died': ('id', 'inst'), 'log': ('id', 'fd', 'text'),
                   'ret': ()}),
    'C15': dict(mcw=5, mcn=8, fam=fam_C15, k=(4, 5), w=PW(cacheq=6, psig=.5, pshut=.5),
                o=PO(cached=.8, hkinds={'pio': 2, 'pexit': 1}, err=0),
                f={'spawn': ('id',), 'died': ('id', 'inst'), 'cache': ('id', 'of', 'out', 'err'),
                   'log': ('id', 'fd', 'text'), 'probe': ('id', 'ev'), 'ret': ()}),
    'C16': dict(fam=fam_C16, k=(3, 4), w=W(timer=8, cancel=5, emit=2, reg=2, shutdown=.3,
                                           setdelay=2, co=1),
                o=dict(ext=0.4, err=0.01, depth=4, size=20), f=EVT),
    'C17': dict(mcw=2, fam=fam_C17, k=(3, 4), w=PW(psig=5, pshut=2), o=PO(size=11),
                f={'spawn': ('id',), 'died': ('id', 'inst'), 'sig': ('id', 'inst', 'sig', 't'),
                   'probe': ('id', 'ev'), 'ret': ('rc',)}),
    'C22': dict(mcw=2, fam=fam_C22, k=(2, 3),
                w=dict(probe=3, group=3, fn=.5, setlc=4, resetlc=1, setenv=2, unsetenv=1,
                       appendenv=2, resetenv=.5, inc=3, declarg=3, timer=2, shutdown=.2, proc=2,
                       emit=.5, reg=.7),
                o=dict(args=True, files=True, documents=True, size=16, depth=4, cond=.35, ext=.3,
                       err=.003, badbool=.03, respawn=.4, evals=.4, output=False,
                       hkinds=dict(usr=2, pexit=1, shut=1)),
                f=F(LIFE, {'probe': ('id', 'lc', 'env', 'loc', 't'), 'ret': ('rc', 't'),
                           'spawn': ('id', 'cmd', 'shell', 'name', 'hascwd', 'cwd', 'env', 't'),
                           'sig': ('id', 'inst', 'sig', 't')})),
    'C27': dict(fam=fam_C27, k=(3, 4),
                w=PW(setlc=4, setenv=3, unsetenv=.5, appendenv=1, setpfx=1.5, setpff=1, group=2,
                     psig=0, pshut=0, unsetlc=1),
                o=PO(evals=.5, output=False, hkinds={'usr': 1, 'pexit': 1}, respawn=.2),
                f={'spawn': ('id', 'cmd', 'shell', 'name', 'hascwd', 'cwd', 'env'),
                   'died': ('id', 'inst'), 'ret': ('rc',)}),
    'C28': dict(fam=fam_C28, k=(3, 4), w=W(reg=7, timer=3, co=3, emit=1, cancel=1, shutdown=.2,
                                           group=2, proc=2),
                o=dict(hkinds={'usr': 1, 'cmp': 6}, once=0.15, err=0.03, cond=0.2, coerr=0.2),
                f=F(EVT, LIFE)),
}
NRAND = (1900, 20000)
NMC = (150, 800)


NSIM = (250, 4000)


def reduce_obs(obs, kinds):
    """Only what the property is about; anything abnormal stays."""
    out = []
    for o in obs:
        k = o['o']
        if k not in MODEL:
            out.append(o)
            continue
        fields = kinds.get(k)
        if fields is None:
            continue
        r = {'o': k}
        for f in fields:
            r[f] = [p for p in o['loc'] if p[0] == 'event'] if f == 'ev' else o[f]
        out.append(r)
    return out


MAXSUSPECTS = 240
BUDGET = (5000, 40000)
MODEL = ('probe', 'ret', 'co', 'cocancel', 'spawn', 'died', 'sig', 'log', 'cache')
ALLKINDS = sorted(MODEL) + ['hang']


def weight(x, until=60):
    """How many activities may overlap (the interleavings grow exponentially in that)."""
    if isinstance(x, dict):
        w = {'proc': 1, 'timer': .5, 'co': .5}.get(x.get('k'), 0)
        if w == 1:
            w += max(0, sum(len(y['agenda']) - 1 for y in x['script'])) * .3 \
                + (.3 if len(x['script']) > 1 else 0) \
                + .15 * sum(len(g['tail']) for y in x['script'] for g in y['on'].values())
            if x['max'] > 0 and x['resp'] != T('false'):
                w += .3 * x['max']
            if x['max'] < 0 and x['resp'] != T('false'):
                w += .05 * until / (1 + x['delay'] + min(
                    [a['t'] for y in x['script'] for a in y['agenda'] if a['k'] == 'exit'] or [99]))
        return w + sum(weight(v, until) for v in x.values())
    if isinstance(x, list):
        return sum(weight(v, until) for v in x)
    return 0


def programs(prop):
    plan = PLAN[prop]
    thorough = vp.TIER == 'thorough'
    fam = plan['fam'](plan['k'][thorough])
    cap = 60000 if thorough else 3500
    full = len(fam)
    if full > cap:
        # all shorter strings, and a seeded sample of the longest ones
        r = vp.rng(prop, 'fam')
        short = [p for p in plan['fam'](plan['k'][thorough] - 1)]
        fam = short + r.sample(fam[len(short):], max(0, cap - len(short)))
    rnd = []
    n = NRAND[thorough] // (2 if 'proc' in plan['w'] else 1)
    for i in range(n):
        g = gen_engine.Gen(vp.rng(prop, i), plan['w'], **plan['o'])
        p = g.program()
        rnd.append(as_documents(p, vp.rng(prop, 'doc', i)) if plan['o'].get('documents') else p)
    return fam, rnd, full


def run_engine(prop, res, scratch):
    plan = PLAN[prop]
    fam, rnd, full = programs(prop)
    progs = fam + rnd
    tlc_mc = vp.TLC(scratch)
    # 1. the specification itself: every behaviour of a bounded family of programs
    mcn = NMC[vp.TIER == 'thorough']
    r = vp.rng(prop, 'mc')
    if 'proc' in plan['w']:
        mcfam = [p for p in fam if weight(p) <= plan.get('mcw', 1.5)]
        mcn = plan.get('mcn', mcn // 4)
    else:
        mcfam = fam
    mc = r.sample(mcfam, mcn * 8) if len(mcfam) > mcn * 8 else list(mcfam)
    if 'proc' not in plan['w']:     # (see DESIGN.md: random processes are simulated instead)
        for i in range(mcn):
            mc.append(gen_engine.Gen(vp.rng(prop, 'mc', i), plan['w'],
                                     **dict(plan['o'], size=7)).program())
    f = os.path.join(scratch, 'progs.json')
    with open(f, 'w') as fh:
        json.dump(mc, fh)
    h = tlc_mc.start('EngineMC', env={'PROG_FILE': f}, workers=4, heap='4g')
    f2 = os.path.join(scratch, 'progs2.json')
    nsim = NSIM[vp.TIER == 'thorough']
    with open(f2, 'w') as fh:
        json.dump(rnd[:nsim], fh)
    tlc_sim = vp.TLC(scratch + '/')
    tlc_sim.k = 1000
    h2 = tlc_sim.start('EngineMC', cfg='EngineSim.cfg', env={'PROG_FILE': f2}, workers=2,
                       heap='4g', args=['-simulate', 'num=%d' % nsim, '-depth', '2000'])
    # 2. the real code, 3. its behaviour against the specification
    t0 = time.time()
    out = vp.run_real('engine_driver', progs, scratch)
    t1 = time.time()
    made = [i for i, o in enumerate(out) if 'not_run' not in o]
    if len(made) < len(out) // 4:
        raise vp.CheckError('only %d of %d runs were made in time' % (len(made), len(out)))
    progs, out = [progs[i] for i in made], [out[i] for i in made]
    mcres = tlc_mc.finish(h, 250 if vp.TIER == 'quick' else 3000)
    cut = mcres['timeout'] and 'Error:' not in mcres['out']
    if not mcres['ok'] and not cut:
        raise vp.CheckError('EngineMC does not hold:\n' + mcres['out'][-4000:])
    t2 = time.time()
    simres = tlc_sim.finish(h2, 30 if vp.TIER == 'quick' else 1000)
    simcut = simres['timeout'] and 'Error:' not in simres['out']
    if (simres['rc'] != 0 or 'Error:' in simres['out']) and not simcut:
        raise vp.CheckError('EngineMC does not hold (simulation):\n' + simres['out'][-4000:])
    t3 = time.time()
    # a run that agrees with the specification in every observation agrees in those that the
    # property is about; only the others are compared in these alone
    tlc = vp.TLC(scratch)
    allobs = [o['obs'] if 'obs' in o else [{'o': 'abnormal', 'id': json.dumps(o)[:500]}]
              for o in out]
    first = []
    suspects = sorted(list(vp.validate(
        tlc, 'EngineTrace',
        [{'prog': p, 'obs': o, 'keep': ALLKINDS, 'hasevs': 'evs' in r, 'evs': r.get('evs', []),
          'budget': BUDGET[0]}
         for p, o, r in zip(progs, allobs, out)], scratch, undecided=first, timeout=300)) + first)
    undecided = []
    step = max(1, len(suspects) // MAXSUSPECTS)
    some = suspects[::step][:MAXSUSPECTS]
    traces = [{'prog': progs[i], 'obs': reduce_obs(allobs[i], plan['f']),
               'keep': sorted(plan['f']) + ['hang'],
               'hasevs': 'ev' in plan['f'].get('probe', ()) and 'evs' in out[i],
               'evs': out[i].get('evs', []), 'budget': BUDGET[1]} for i in some]
    bad = vp.validate(tlc, 'EngineTrace', traces, scratch, timeout=300, batch=10,
                      undecided=undecided)
    res.cov['seconds'] = dict(real=round(t1 - t0, 1), model=round(t2 - t1, 1),
                              simulation=round(t3 - t2, 1), traces=round(time.time() - t3, 1))
    for i, d in sorted(bad.items()):
        obs = traces[i]['obs']
        at = d['position']
        got = obs[at - 1] if 0 < at <= len(obs) else 'end of the recorded run'
        res.violation({'program': progs[some[i]], 'observed': obs, 'at': at,
                       'specification_allows': d['specification_allows']},
                      'launch did %s where the specification allows %s'
                      % (json.dumps(got)[:300], '; '.join(d['specification_allows'])[:300]))
    nontriv = sum(len(o) > 2 for o in allobs)
    res.cov['states'] = tlc_mc.distinct + tlc.distinct
    res.cov['transitions'] = tlc_mc.states + tlc.states
    res.cov['traces_validated_against_impl'] = len(allobs)
    res.cov.setdefault('parts', {})['engine'] = {
        'programs_exhaustive_family': len(fam), 'family_size': full,
        'family_bound_tokens': plan['k'][vp.TIER == 'thorough'],
        'programs_random': len(rnd), 'simulated_behaviours': 2 * nsim,
        'model_checked_programs': len(mc), 'model_checking_cut_short': cut,
        'simulation_cut_short': simcut,
        'model_states': tlc_mc.distinct, 'trace_states': tlc.distinct,
        'runs_with_several_observations': nontriv,
        'observations': sum(len(o) for o in allobs),
        'runs_compared_in_the_relevant_observations_only': len(traces),
        'undecided_within_the_state_budget': len(undecided)}
    res.cov['samples'] = [{'program': progs[i], 'observed': reduce_obs(allobs[i], plan['f'])}
                          for i in (len(fam) // 2, -1)]

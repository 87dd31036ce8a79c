"""Random launch programs for the Engine specification (see spec/Engine.tla for node kinds)."""
import copy

NONE = {'t': 'none'}


class Gen:
    """feats: weights per node kind; opts: tuning (see the checks)."""

    LCN = ['a', 'b', 'c']
    ENVN = ['VE_X', 'VE_Y', 'VE_Z']
    WORDS = ['', '1', 'x', 'yy', 'a b', 'true', 'false', 'q:r', '0']
    BOOLS = ['true', 'True', ' 1 ', 'FALSE', '0', 'false', '\ttrue\n', '1', 'tRuE', '  False']
    BADBOOLS = ['yes', '', 'tru', '2', 'true false', '01', 'on']

    def __init__(self, rng, feats, **opts):
        self.r = rng
        self.feats = feats
        self.o = dict(size=14, depth=3, cond=0.2, err=0.015, events=5, badbool=0.0, pres=0,
                      missing=0.01, dyn=True, kinds_in_handlers=None, shut=0.0)
        self.o.update(opts)
        if self.o.get('documents'):
            self.WORDS = self.WORDS + ["it's", '$(x', 'a"b c', '\\', '(', '<&>', '$$', 'a)', '\\$(',
                                       '~', 'null', '1.5', '- x', '{', 'a: b', '#', ' lead', 'u\u00e9']
        self.n = 0
        self.hids = []          # [id, registered-so-far?] of handlers
        self.timers = []
        self.acts = []          # ids usable as completion targets
        self.hbody = 0
        self.secs = {}
        self.budget = 0
        self.infile = 0
        self.noerr = 0
        self.inshut = 0
        self.inh = 0
        self.procs = []         # ids of the process actions
        self.nopsig = 0         # no process-directed events here

    # -- pieces -----------------------------------------------------------
    def nid(self, p='n'):
        self.n += 1
        return ('h:' if self.hbody else '') + '%s%d' % (p, self.n)

    def lit(self, words=None):
        return {'t': 't', 'v': self.r.choice(words or self.WORDS)}

    def part(self, depth=0):
        r = self.r.random()
        if r < 0.45 or depth > 2:
            return self.lit()
        kind = 'lc'
        if self.o.get('envsubst', True) and r > 0.75:
            kind = 'env'
        names = self.LCN if kind == 'lc' else self.ENVN
        # (the default of an environment variable is evaluated even if it is not needed)
        hd = bool(self.noerr) or self.r.random() > self.o['missing']
        self.noerr += kind == 'env'
        d = self.value(depth + 1) if hd and self.r.random() < 0.7 else []
        self.noerr -= kind == 'env'
        n = [{'t': 't', 'v': self.r.choice(names)}]
        return {'t': kind, 'n': n, 'hd': hd, 'd': d}

    def value(self, depth=0):
        k = self.r.choice([1, 1, 1, 2, 2, 3])
        # handlers run again and again: texts that double at every run would explode
        v = [self.part(depth if not i or not self.inh else 9) for i in range(k)]
        if self.o.get('files') and self.infile and self.r.random() < 0.3:
            v.append({'t': 'loc', 'v': self.r.choice(
                ['current_launch_file_path', 'current_launch_file_directory'])})
        return v

    def name(self, names):
        r = self.r.random()
        if r < 0.85:
            return [{'t': 't', 'v': self.r.choice(names)}]
        # a name computed from a configuration that may itself change
        base = self.r.choice(names)
        return [{'t': 't', 'v': base[:-1]},
                {'t': 'lc', 'n': [{'t': 't', 'v': 'sel'}], 'hd': True,
                 'd': [{'t': 't', 'v': base[-1]}]}]

    def cond(self):
        if self.r.random() >= self.o['cond']:
            return NONE
        k = self.r.random()
        if k < 0.6:
            r = self.r.random()
            if r < self.o['badbool']:
                v = [self.lit(self.BADBOOLS)]
            elif r < 0.5:
                v = [self.lit(self.BOOLS)]
            else:
                v = [{'t': 'lc', 'n': [{'t': 't', 'v': 'flag'}], 'hd': True,
                      'd': [self.lit(self.BOOLS)]}]
            return {'t': self.r.choice(['if', 'unless']), 'v': v}
        isnone = self.r.random() < 0.25
        return {'t': self.r.choice(['eq', 'ne']), 'n': self.r.choice(self.LCN + ['flag']),
                'isnone': isnone,
                'v': [] if isnone else ([self.lit()] if self.r.random() < 0.7 else self.value())}

    def secs_text(self):
        ms = self.r.randrange(1, 400)
        t = '%.3f' % (ms / 1000.0)
        if self.r.random() < 0.1:
            ms, t = 0, '0.0'
        self.secs[t] = ms
        return t

    # -- nodes ------------------------------------------------------------
    def nodes(self, depth, single, lo=1, hi=5, emin=0):
        out = []
        for _ in range(self.r.randint(lo, hi)):
            if self.budget <= 0:
                break
            self.budget -= 1
            out.append(self.node(depth, single, emin))
            if self.r.random() < .08:
                self.again(out)
        if self.o.get('probes', 0.5) > self.r.random():
            out.append(self.mk('probe'))
        return out

    SIMPLE = {'probe', 'fn', 'desc', 'group', 'inc', 'setlc', 'unsetlc', 'resetlc', 'setenv',
              'unsetenv', 'appendenv', 'resetenv', 'emit', 'declarg', 'loc', 'glob'}

    @classmethod
    def simple(cls, x):
        if isinstance(x, list):
            return all(map(cls.simple, x))
        if isinstance(x, dict):
            return ('k' not in x or x['k'] in cls.SIMPLE) and all(map(cls.simple, x.values()))
        return True

    def again(self, out):
        """The same object once more."""
        xs = [x for x in out if self.simple(x) and x['id']]
        if xs:
            x = self.r.choice(xs)
            x['shared'] = True
            out.append(copy.deepcopy(x))

    def mk(self, k, **kw):
        n = {'k': k, 'id': self.nid(), 'cond': NONE}
        n.update(kw)
        return n

    def node(self, depth, single, emin):
        feats = dict(self.feats)
        if depth <= 0:
            for k in ('group', 'desc', 'fn', 'inc', 'timer', 'reg'):
                feats.pop(k, None)
        if self.inshut:
            feats.pop('shutdown', None)
        if not single:
            feats.pop('timer', None)
            feats.pop('co', None)
            feats.pop('declarg', None)
            feats.pop('proc', None)
        if self.nopsig:
            feats.pop('psig', None)
            feats.pop('pshut', None)
        if emin >= self.o['events']:
            feats.pop('emit', None)
        if self.r.random() < self.o['err'] and self.o.get('raises', True):
            return self.mk('raise', cond=self.cond())
        ks = list(feats)
        k = self.r.choices(ks, [feats[x] for x in ks])[0]
        c = NONE if k in ('desc', 'pushlc', 'poplc', 'pushenv', 'popenv') else self.cond()
        r = self.r
        if k == 'probe':
            return self.mk(k, cond=c)
        if k in ('fn', 'desc'):
            return self.mk(k, cond=c, body=self.nodes(depth - 1, single, emin=emin))
        if k == 'group':
            scoped = r.random() < 0.75
            lcs = []
            seen = set()
            for _ in range(r.choice([0, 0, 1, 2, 3])):
                nm = self.name(self.LCN + ['flag', 'sel'])
                if str(nm) not in seen:
                    seen.add(str(nm))
                    lcs.append([nm, self.value()])
            return self.mk(k, cond=c, scoped=scoped, fwd=r.random() < 0.6, lcs=lcs,
                           body=self.nodes(depth - 1, single, lo=1, hi=5, emin=emin))
        if k == 'inc':
            sub = self.r.choice(['@/d1/f1.py', '@/d2/f2.py', '@/d2/f3.py', '@/no/f4.py'])
            d = sub if '/no/' in sub else sub.rsplit('/', 1)[0]
            args = [[self.name(self.LCN + ['flag', 'r1']), self.value()]
                    for _ in range(r.choice([0, 1, 1, 2]))]
            if r.random() < .3:     # a name that depends on an earlier argument
                a, b = r.sample(self.LCN, 2)
                args += [[[{'t': 't', 'v': a}], [{'t': 't', 'v': b}]],
                         [[{'t': 'lc', 'n': [{'t': 't', 'v': a}], 'hd': True,
                            'd': [{'t': 't', 'v': 'd'}]}], self.value()]]
            self.infile += 1
            body = self.nodes(depth - 1, single, emin=emin)
            self.infile -= 1
            if self.o.get('args'):
                body = [self.declarg() for _ in range(r.choice([0, 1, 2]))] + body
            return self.mk(k, cond=c, args=args, file=sub, dir=d, body=body)
        if k == 'setlc':
            nm = self.name(self.LCN + ['flag', 'sel'])
            if nm == [{'t': 't', 'v': 'flag'}]:
                bad = r.random() < self.o['badbool']
                v = [self.lit(self.BADBOOLS if bad else self.BOOLS)]
            elif nm == [{'t': 't', 'v': 'sel'}]:
                v = [self.lit(['a', 'b', 'X'])]
            else:
                v = self.value()
            return self.mk(k, cond=c, n=nm, v=v)
        if k == 'unsetlc':
            return self.mk(k, cond=c, n=self.name(self.LCN + ['flag', 'sel']))
        if k == 'resetlc':
            keep, seen = [], set()
            for _ in range(r.choice([0, 1, 2])):
                nm = self.name(self.LCN)
                if str(nm) not in seen:
                    seen.add(str(nm))
                    keep.append([nm, self.value()])
            return self.mk(k, cond=c, keep=keep)
        if k == 'setenv':
            return self.mk(k, cond=c, n=self.name(self.ENVN), v=self.value())
        if k == 'unsetenv':
            return self.mk(k, cond=c, n=self.name(self.ENVN))
        if k == 'appendenv':
            return self.mk(k, cond=c, n=self.name(self.ENVN), v=self.value(),
                           pre=r.random() < 0.5,
                           sep=[self.lit([':', ':', '', ';;', ' '])])
        if k in ('pushpop_lc', 'pushpop_env'):
            x = k[8:]
            body = [self.mk('push' + x)] + self.nodes(depth - 1, single, hi=3, emin=emin) \
                + [self.mk('pop' + x)]
            return self.mk('desc', body=body)
        if k == 'resetenv':
            return self.mk(k, cond=c)
        if k in ('poplc', 'popenv'):
            return self.mk(k)
        if k == 'emit':
            i = r.randrange(emin, self.o['events'])
            return self.mk(k, cond=c, name='E%d' % i)
        if k == 'shutdown':
            return self.mk(k, cond=c)
        if k == 'declarg':
            return self.declarg(c)
        if k == 'loc':
            return self.mk(k, cond=c, name=r.choice(['l1', 'l2']), v=r.choice(['p', 'q', 'r']))
        if k == 'glob':
            return self.mk(k, cond=c, name=r.choice(['l1', 'g1']), v=r.choice(['gp', 'gq']))
        if k == 'reg':
            if self.hids and r.random() < 0.1 and not single:
                pass
            return self.mk(k, cond=c, app=r.random() < self.o.get('append', 0.3),
                           h=self.handler(depth, emin))
        if k == 'unreg':
            if not self.hids:
                return self.mk('probe')
            # (most of the time only in sequence with the registration)
            return self.mk(k, cond=c, hid=r.choice(self.hids[-2:]))
        if k == 'timer':
            per = [{'t': 't', 'v': self.secs_text()}]
            n = self.mk(k, cond=c, cos=r.random() < 0.6, period=per, body=[])
            if r.random() < 0.3:
                t = self.secs_text()
                n['period'] = [{'t': 'lc', 'n': [{'t': 't', 'v': 'delay'}], 'hd': True,
                                'd': [{'t': 't', 'v': t}]}]
            self.timers.append(n['id'])
            n['body'] = self.nodes(depth - 1, single, hi=3, emin=emin)
            return n
        if k == 'setdelay':
            return self.mk('setlc', cond=c, n=[{'t': 't', 'v': 'delay'}],
                           v=[{'t': 't', 'v': self.secs_text()}])
        if k == 'cancel':
            if not self.timers:
                return self.mk('probe')
            return self.mk(k, cond=c, key=r.choice(self.timers))
        if k == 'co':
            steps = []
            for _ in range(r.randint(1, 4)):
                x = r.random()
                if x < 0.45:
                    steps.append({'k': 'sleep', 'd': r.randrange(1, 300)})
                elif x < 0.75:
                    steps.append({'k': 'mark', 'id': self.nid('m')})
                elif x < 0.95 and emin < self.o['events']:
                    steps.append({'k': 'emit', 'name': 'E%d' % r.randrange(emin, self.o['events']),
                                  'id': self.nid('e')})
            if r.random() < self.o.get('coerr', 0.1):
                steps.append({'k': 'raise'})
            return self.mk(k, cond=c, steps=steps)
        if k == 'proc':
            return self.proc(depth, c, emin)
        if k == 'psig':
            return self.mk(k, cond=c, sig=r.choice(self.SIGS), byname=r.random() < 0.2,
                           m=self.matcher())
        if k == 'pshut':
            return self.mk(k, cond=c, m=self.matcher())
        if k == 'cacheq':
            if not self.procs:
                return self.mk('probe')
            return self.mk(k, cond=c, of=r.choice(self.procs))
        if k == 'setpfx':
            v = r.choice(['', 'pre', 'pre -x', ' gdb  --args ', 'p\tq'])
            return self.mk('setlc', cond=c, n=[{'t': 't', 'v': 'launch-prefix'}],
                           v=[{'t': 't', 'v': v}])
        if k == 'setpff':
            v = r.choice(['', 'p', 'pro', 'prog', 'progs', 'q', 'a'])
            return self.mk('setlc', cond=c, n=[{'t': 't', 'v': 'launch-prefix-filter'}],
                           v=[{'t': 't', 'v': v}])
        if k == 'setto':
            return self.mk('setlc', cond=c,
                           n=[{'t': 't', 'v': r.choice(['sigterm_timeout', 'sigkill_timeout'])}],
                           v=[{'t': 't', 'v': self.secs_text()}])
        if k == 'setrs':
            return self.mk('setlc', cond=c, n=[{'t': 't', 'v': 'rs'}],
                           v=[{'t': 't', 'v': r.choice(['true', 'false'])}])
        if k == 'settty':
            return self.mk('setlc', cond=c, n=[{'t': 't', 'v': 'emulate_tty'}],
                           v=[{'t': 't', 'v': r.choice(['false', '0', 'bad'])}])
        raise AssertionError(k)

    SIGS = ['SIGINT', 'SIGTERM', 'SIGUSR1', 'SIGINT', 'SIGKILL']
    CHUNKS = ['a', 'b', 'x y', '\n', '\n', '\n', '{', '}', '{}', 'q\n', '\n\n', 'r{', '}s', ' ',
              'a\nb', '\nc', '{}\n']

    def matcher(self):
        r = self.r.random()
        ps = self.procs or ['P1']
        if r < 0.15:
            return {'t': 'all'}
        if r < 0.5:
            return {'t': 'ids', 'ids': sorted(self.r.sample(ps, self.r.randint(1, min(2, len(ps)))))}
        if r < 0.7:
            return {'t': 'pid', 'of': self.r.choice(ps)}
        if r < 0.85:
            return {'t': 'name', 'of': self.r.choice(ps)}
        return {'t': 'exe', 'v': self.r.choice(['prog', 'g', 'bin/prog', 'x', 'tool'])}

    def text(self):
        return ''.join(self.r.choice(self.CHUNKS) for _ in range(self.r.choice([1, 1, 2, 3])))

    def times(self, n, lo, hi):
        return sorted(self.r.sample(range(lo, hi), n))

    def script(self, forever):
        r = self.r
        n = r.choice([0, 0, 1, 2, 3, 4]) if self.o.get('output', True) else 0
        dies = r.random() < (0.2 if forever else 0.8)
        hi = r.choice([60, 400, 900])
        ts = self.times(n + 1, 0, hi)
        if ts[-1] == 0:
            ts[-1] = 1
        ag = [{'t': t, 'k': 'data', 'fd': r.choice([1, 1, 2]), 'text': self.text(), 'code': 0}
              for t in ts[:-1]]
        if dies:
            ag.append({'t': ts[-1], 'k': 'exit', 'fd': 0, 'text': '',
                       'code': r.choice([0, 0, 1, 2, -11, 255])})
        on = {}
        for sig in ('SIGINT', 'SIGTERM', 'SIGUSR1'):
            if r.random() < (0.15 if sig == 'SIGUSR1' else 0.7):
                k = r.choice([0, 0, 1, 2]) if self.o.get('output', True) else 0
                tt = self.times(k + 1, 1, r.choice([20, 300]))
                on[sig] = {'d': tt[-1], 'code': r.choice([0, 0, 1, -2, -15]),
                           'tail': [{'t': t, 'fd': r.choice([1, 2]), 'text': self.text()}
                                    for t in tt[:-1]]}
        return {'latency': r.choice([0, 0, 0, 5, 50]), 'fail': r.random() < self.o.get('pfail', .06),
                'lag': r.choice([0, 0, 0, 3, 40]), 'agenda': ag, 'on': on}

    def timeout(self, name):
        r = self.r.random()
        if r < 0.5:
            self.secs['5'] = 5000
            return [{'t': 'lc', 'n': [{'t': 't', 'v': name}], 'hd': True,
                     'd': [{'t': 't', 'v': '5'}]}]
        t = self.secs_text()
        if r < 0.6:
            return [{'t': 'lc', 'n': [{'t': 't', 'v': 'tmo'}], 'hd': True,
                     'd': [{'t': 't', 'v': t}]}]
        return [{'t': 't', 'v': t}]

    def proc(self, depth, c, emin):
        r = self.r
        p = 'P%d' % (len(self.procs) + 1)
        self.procs.append(p)
        evals = self.o.get('evals', 0.15)
        words = [[{'t': 't', 'v': r.choice(['prog', '/bin/prog', 'tool', 'x/tool', 'a'])}]]
        if r.random() < evals:
            words[0] = [{'t': 't', 'v': 'prog'}] + self.value()
        for _ in range(r.choice([0, 0, 1, 2])):
            words.append(self.value() if r.random() < evals * 2 else [self.lit()])
        words.append([{'t': 't', 'v': '#' + p}])
        lcd = {'t': 'lc', 'n': [{'t': 't', 'v': 'launch-prefix'}], 'hd': True, 'd': []}
        lcf = {'t': 'lc', 'n': [{'t': 't', 'v': 'launch-prefix-filter'}], 'hd': True, 'd': []}
        haspf = r.random() < 0.8
        pairs = []
        for _ in range(2):
            q, seen = [], set()
            for _ in range(r.choice([0, 0, 1, 2]) if r.random() < evals * 3 else 0):
                nm = self.name(self.ENVN)
                if str(nm) not in seen:
                    seen.add(str(nm))
                    q.append([nm, self.value()])
            pairs.append(q)
        hascwd = r.random() < evals * 2
        hasenv = r.random() < evals
        hasname = r.random() < evals
        respawn = r.random() < self.o.get('respawn', 0.25)
        resp = [{'t': 't', 'v': 'true' if respawn else 'false'}]
        if r.random() < 0.1:
            resp = [{'t': 'lc', 'n': [{'t': 't', 'v': 'rs'}], 'hd': True, 'd': resp}]
            respawn = True
        unlimited = respawn and self.o.get('ext', 0) >= 1 and r.random() < 0.4
        onexit = []
        if depth > 0 and r.random() < 0.35:
            self.inshut += r.random() < 0.7
            insh = self.inshut
            onexit = self.nodes(depth - 1, not respawn, hi=3, emin=emin)
            self.inshut = insh
        n = self.mk('proc', cond=c, cmd=words, haspf=haspf,
                    prefix=[lcd] if haspf else self.value() if r.random() < .5 else [],
                    pfilter=[lcf] if haspf else [],
                    hasname=hasname, name=self.value() if hasname else [],
                    hascwd=hascwd, cwd=self.value() if hascwd else [], hasenv=hasenv,
                    env=pairs[0] if hasenv else [], addenv=pairs[1], resp=resp,
                    delay=r.choice([0, 0, 10, 100]), zerodelay=r.random() < .3,
                    max=-1 if unlimited else r.choice([0, 1, 2, 3]),
                    cached=r.random() < self.o.get('cached', 0.3), badout=r.random() < .01,
                    shell=r.random() < 0.2, tt=self.timeout('sigterm_timeout'),
                    kt=self.timeout('sigkill_timeout'), onexit=onexit,
                    style=r.choice(['list', 'fn']), fmt=r.random() < .2,
                    outdict=r.random() < .3,
                    script=[self.script(self.o.get('ext', 0) >= 1 and not respawn)
                            for _ in range(r.choice([1, 2, 3]) if respawn else 1)])
        n['id'] = p
        return n

    def declarg(self, c=NONE):
        r = self.r
        hd = r.random() < self.o.get('argdef', 0.85)
        hc = r.random() < self.o.get('argch', 0.2)
        d = []
        choices = []
        if hd:
            d = self.value() if r.random() < 0.5 else [self.lit()]
        if hc:
            choices = sorted({r.choice(self.WORDS) for _ in range(r.randint(1, 6))})
        return self.mk('declarg', cond=c, name=r.choice(self.LCN + ['r1']), hd=hd, d=d, hc=hc,
                       choices=choices)

    def handler(self, depth, emin):
        r = self.r
        hid = 'H%d' % (len(self.hids) + 1)
        kinds = self.o.get('hkinds', {'usr': 8, 'shut': 1, 'cmp': 1})
        kind = r.choices(list(kinds), list(kinds.values()))[0]
        once = r.random() < self.o.get('once', 0.3)
        h = {'id': hid, 'once': once, 'do': 'nodes', 'key': '', 'body': [],
             'style': r.choice(['fn', 'list', 'obj'])}
        self.hids.append(hid)
        low = emin
        if kind == 'usr':
            names = sorted(r.sample(range(self.o['events']), r.randint(1, 3)))
            h['m'] = {'t': 'usr', 'names': ['E%d' % i for i in names]}
            low = max(names) + 1
        elif kind == 'shut':
            h['m'] = {'t': 'shut'}
            low = emin
        elif kind in ('pstart', 'pexit', 'pio'):
            anyt = r.random() < 0.3
            h['m'] = {'t': 'pev', 'k': kind, 'any': anyt, 'ids': []}
            if kind == 'pio':
                h['m']['fd'] = r.choice([0, 1, 2])
        elif kind in ('psig', 'pshut'):
            h['m'] = {'t': kind}
            low = self.o['events']
        else:
            anyt = r.random() < 0.4
            h['m'] = {'t': 'cmp', 'any': anyt, 'ids': []}
            low = self.o['events']
        if h['m']['t'] == 'cmp':
            self.hbody += 1
        nopsig = h['m']['t'] in ('cmp', 'psig', 'pshut')
        self.nopsig += nopsig
        self.inshut += 1
        # a handler registered once and handled once runs its body at most once
        first = self.mk('probe')
        infile, self.infile = self.infile, 0
        self.inh += 1
        h['body'] = [first] + self.nodes(depth - 1, False, lo=0, hi=3, emin=low)
        self.infile = infile
        self.inh -= 1
        self.inshut -= 1
        self.nopsig -= nopsig
        if h['m']['t'] == 'cmp':
            self.hbody -= 1
        return h

    def program(self):
        o = self.o
        self.budget = o['size']
        pre = []
        npre = self.r.choice(o.get('npre', [1]))
        for i in range(npre):
            if i and self.r.random() < 0.5:
                pre.append({'k': 'usr', 'name': 'E%d' % self.r.randrange(o['events']),
                            'id': self.nid('e')})
                if self.r.random() < .3:
                    pre[-1]['shared'] = True
                    pre.append(dict(pre[-1]))
            else:
                self.budget = max(self.budget, o['size'] // npre)
                pre.append({'k': 'inc', 'body': self.nodes(o['depth'], True, lo=2, hi=o['size'])})
        # completion handlers get real targets now that all ids are known
        allids = []

        def walk(x):
            if isinstance(x, dict):
                if 'k' in x and 'cond' in x and x['k'] != 'desc' and x['id'] \
                        and not x['id'].startswith('h:'):
                    allids.append(x['id'])
                for v in x.values():
                    walk(v)
            elif isinstance(x, list):
                for v in x:
                    walk(v)
        walk(pre)

        def fill(x):
            if isinstance(x, dict):
                if x.get('t') == 'cmp' and not x['any'] and allids:
                    x['ids'] = sorted(self.r.sample(
                        allids, min(len(allids), self.r.choice([1, 1, 1, 2, 3]))))
                if x.get('t') == 'pev' and not x['any']:
                    ps = self.procs or ['P1']
                    x['ids'] = sorted(self.r.sample(ps, min(len(ps), self.r.choice([1, 1, 2]))))
                for v in x.values():
                    fill(v)
            elif isinstance(x, list):
                for v in x:
                    fill(v)
        fill(pre)
        ext = []
        swi = True
        if self.r.random() < o.get('ext', 0.0):
            ext = [{'t': self.r.randrange(1, self.r.choice([80, 500, 1200])), 'k': self.r.choice(['call', 'call', 'sigint'])}]
            if self.r.random() < 0.2:
                ext.append({'t': ext[0]['t'] + self.r.randrange(1, 200),
                            'k': self.r.choice(['call', 'sigint'])})
            swi = self.r.random() < 0.5
        lc0 = [[n, self.r.choice(self.WORDS)] for n in self.LCN if self.r.random() < 0.3]
        env0 = [[n, self.r.choice(self.WORDS[1:])] for n in self.ENVN if self.r.random() < 0.4]
        return {'pre': pre, 'lc0': lc0, 'env0': env0, 'ext': ext, 'swi': swi,
                'nonint': self.r.random() < 0.3,
                'secs': sorted([k, v] for k, v in self.secs.items())}

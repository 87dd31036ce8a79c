"""C22: which documents are launch files (spec Frontend); their meaning is in engine_checks."""
import copy

import simple
import vp

SUB = ['$(var a)', "$(var a 'b c')", 'x$(env H d)', '$(dirname)', '$(not true)', '$(if 1 a b)']
MALFORMED = ['$(', '$(nope x)', '$(var', '$(var)', '$(env)', '$(var a b c)', 'a$(var a',
             "$(env 'x)", '$(not)', '$(if a b c d)']
BOOLS = ['true', 'false', 'True', 'FALSE', 'yes', 'no', 'on', 'off', 'Off', '1', '0']
INTS = ['0', '1', '7', '-2', '12']
DECIMALS = ['0.5', '1.5', '-0.5', '1e3', '.25', '-1.0', '0.0']
WORDS = ['', 'a', 'a b', 'shutdown', 'tru', 'null', 'x=1', 'maybe', '7s', '1.2.3', '<a&b>', 'é']
# kind of each attribute, only to choose what is usually right (see Frontend.tla)
NV = {'name': 'subst', 'value': 'subst'}
ATTRS = {
    'let': NV, 'set_env': NV, 'unset_env': {'name': 'subst'},
    'append_env': dict(NV, prepend='boolsubst', separator='subst'), 'reset_env': {}, 'reset': {},
    'log': {'message': 'subst'}, 'shutdown': {'reason': 'subst'}, 'include': {'file': 'subst'},
    'arg': {'name': 'plain', 'default': 'subst', 'description': 'plain'},
    'group': {'scoped': 'bool', 'forwarding': 'bool'},
    'timer': {'period': 'floatsubst', 'cancel_on_shutdown': 'boolsubst'},
    'executable': {'cmd': 'cmd', 'cwd': 'subst', 'name': 'subst', 'on_exit': 'shutdown',
                   'launch-prefix': 'subst', 'output': 'subst', 'respawn': 'subst',
                   'respawn_max_retries': 'int', 'respawn_delay': 'seconds',
                   'sigkill_timeout': 'seconds', 'sigterm_timeout': 'seconds', 'shell': 'bool',
                   'emulate_tty': 'bool'}}
REQUIRED = {'let': ['name', 'value'], 'set_env': ['name', 'value'], 'unset_env': ['name'],
            'append_env': ['name', 'value'], 'log': ['message'], 'include': ['file'],
            'arg': ['name'], 'timer': ['period'], 'executable': ['cmd']}
SUBTAG = {'reset': 'keep', 'include': 'arg', 'arg': 'choice', 'group': 'keep', 'executable': 'env'}
UNKNOWN = ['names', 'Name', 'value2', 'default_value', 'env', 'id', 'children_', 'period', 'args',
           'condition', 'if_', 'sep', 'scope', 'respawn-delay', 'keep_', 'shel', 'param']


def element(tag, attrs=(), subs=(), kids=(), haskids=None, form='map'):
    return {'tag': tag, 'attrs': list(attrs), 'subs': list(subs), 'kids': list(kids),
            'haskids': bool(kids) if haskids is None else haskids, 'form': form}


def attr(n, t, v):
    return {'n': n, 't': t, 'v': v}


def value(r, kind, syn):
    """A value of the kind."""
    text = r.choice([r.choice(WORDS), r.choice(SUB), r.choice(INTS + BOOLS + DECIMALS)])
    if kind in ('subst', 'plain', 'cmd'):
        return 's', text
    if kind == 'shutdown':
        return 's', 'shutdown'
    if kind == 'bool' or (kind == 'boolsubst' and r.random() < .6):
        return ('s', r.choice(BOOLS)) if syn == 'xml' else ('b', r.choice(['true', 'false']))
    if kind == 'boolsubst':
        return 's', r.choice(SUB)
    if kind == 'int':
        return ('s' if syn == 'xml' else 'i'), r.choice(INTS)
    if kind == 'floatsubst' and r.random() < .4:
        return 's', text
    v = r.choice(DECIMALS + (INTS if syn == 'xml' else []))
    return ('s' if syn == 'xml' else 'f'), v.lstrip('-') if kind == 'seconds' else v


def wrong(r, syn):
    """Any value at all."""
    x = r.random()
    if x < .3:
        return 's', r.choice(MALFORMED)
    if x < .4:
        return 's', r.choice(["'a", "a 'b c", '"x'])
    if x < .7 or syn == 'xml':
        return 's', r.choice(WORDS + SUB + BOOLS + INTS + DECIMALS)
    t = r.choice('bifzld')
    return t, r.choice({'b': ['true', 'false'], 'i': INTS, 'f': DECIMALS}.get(t, ['x']))


def sub(r, tag, syn):
    names = ['value'] if tag == 'choice' else ['name', 'value']
    return element(tag, [attr(n, *value(r, 'plain' if tag == 'choice' else 'subst', syn))
                         for n in names])


def action(r, depth, syn, tag=None, all_attrs=False):
    tags = [t for t in ATTRS if depth > 0 or t not in ('group', 'timer')]
    tag = tag or r.choice(tags + ['group', 'timer', 'executable'] * (depth > 0))
    attrs = []
    for n, kind in ATTRS[tag].items():
        if n in REQUIRED.get(tag, ()) or all_attrs or r.random() < .35:
            attrs.append(attr(n, *value(r, kind, syn)))
    if r.random() < .25:
        attrs.append(attr(r.choice(['if', 'unless']), *value(r, 'subst', syn)))
    subs = []
    if tag in SUBTAG and (all_attrs or r.random() < .5):
        subs = [sub(r, SUBTAG[tag], syn) for _ in range(r.choice([1, 1, 2]))]
    kids = []
    if tag in ('group', 'timer'):
        kids = [action(r, depth - 1, syn) for _ in range(r.choice([0, 1, 1, 2, 3]))]
    form = 'map'
    if syn == 'yaml' and tag == 'group' and not attrs and not subs and r.random() < .5:
        form = 'list'
    r.shuffle(attrs)
    return element(tag, attrs, subs, kids, tag in ('group', 'timer'), form)


def within(doc, syn):
    """Is the document one that the specification describes?"""
    def fine(n, top):
        names = [a['n'] for a in n['attrs']]
        if len(names) != len(set(names)):
            return False
        if n['form'] == 'list' and (n['attrs'] or n['subs']):
            return False
        if n['form'] not in ('map', 'list') and (n['attrs'] or n['subs'] or n['kids']):
            return False
        if syn == 'yaml':
            if any(a['n'] in [c['tag'] for c in n['subs']] for a in n['attrs']):
                return False
            if n['haskids'] and any(a['n'] == 'children' for a in n['attrs']):
                return False
            # (keep among the children and as an attribute)
            if n['subs'] and any(c['tag'] == 'keep' for c in n['kids']):
                return False
            if n['kids'] and not n['haskids'] and n['form'] == 'map':
                return False
        else:
            if any(a['t'] != 's' for a in n['attrs']):
                return False
            # (an element that both belongs to another and could be an action)
        return all(fine(c, False) for c in n['subs'] + n['kids'])
    return all(fine(n, True) for n in doc['kids'])


def paths(doc):
    """Every element with the list it stands in and whether it is an action."""
    out = []

    def walk(seq, is_action):
        for i, n in enumerate(seq):
            out.append((seq, i, n, is_action))
            walk(n['subs'], False)
            walk(n['kids'], True)
    walk(doc['kids'], True)
    return out


def corruptions(doc, syn, r):
    """Single changes of the document."""
    for k in range(len(paths(doc))):
        def changed(f):
            d = copy.deepcopy(doc)
            seq, i, n, act = paths(d)[k]
            f(seq, i, n)
            return d
        seq, i, n, act = paths(doc)[k]
        for j in range(len(n['attrs'])):
            yield changed(lambda s, i, n: n['attrs'].pop(j))
            yield changed(lambda s, i, n: n['attrs'][j].update(n=r.choice(UNKNOWN)))
            for _ in range(2):
                t, v = wrong(r, syn)
                yield changed(lambda s, i, n: n['attrs'][j].update(t=t, v=v))
            yield changed(lambda s, i, n: n['attrs'][j].update(t='s', v=r.choice(MALFORMED)))
        yield changed(lambda s, i, n: n['attrs'].append(attr(r.choice(UNKNOWN), 's', 'x')))
        other = r.choice(list(ATTRS.values()))
        if other:
            nm = r.choice(list(other))
            if nm not in [a['n'] for a in n['attrs']]:
                yield changed(lambda s, i, n: n['attrs'].append(
                    attr(nm, *value(r, other[nm], syn))))
        for c in ('if', 'unless'):
            if c not in [a['n'] for a in n['attrs']]:
                yield changed(lambda s, i, n: n['attrs'].append(attr(c, 's', 'true')))
        yield changed(lambda s, i, n: n['subs'].append(
            sub(r, r.choice(['keep', 'arg', 'env', 'choice', 'param', 'kep']), syn)))
        yield changed(lambda s, i, n: (n['kids'].append(action(r, 0, syn)),
                                       n.update(haskids=True)))
        yield changed(lambda s, i, n: n.update(tag=r.choice(
            list(ATTRS) + ['keep', 'Group', 'lets', 'choice', 'node', 'env'])))
        if n['subs'] and r.random() < .5:
            yield changed(lambda s, i, n: n['subs'].pop())
        if syn == 'yaml':
            yield changed(lambda s, i, n: n.update(kids=[], haskids=False))
            yield changed(lambda s, i, n: n.update(kids=[], haskids=True))
            if act:
                for form in ('text', 'null', 'number', 'empty'):
                    yield changed(lambda s, i, n: n.update(
                        kids=[], subs=[], attrs=[], haskids=False, form=form))
                if n['kids']:
                    yield changed(lambda s, i, n: n.update(
                        subs=[], attrs=[], form='list', haskids=True))
    yield dict(doc, root=r.choice(['Launch', 'group', 'launc']))


def run_frontend(prop, res, scratch):
    th = vp.TIER == 'thorough'
    ops = []

    def add(doc, syn, r):
        if within(doc, syn):
            ops.append({'doc': doc, 'syn': syn, 'any': r.random() < .1})
    for syn in ('xml', 'yaml'):
        # each action with each attribute alone, all of them, and every single change of that
        for tag in ATTRS:
            for i in range(12 if th else 4):
                r = vp.rng('C22', syn, tag, i)
                doc = {'root': 'launch', 'kids': [action(r, 1, syn, tag, True)]}
                add(doc, syn, r)
                for d in corruptions(doc, syn, r):
                    add(d, syn, r)
            # every attribute with values of all kinds
            for n in ATTRS[tag]:
                for i in range(150 if th else 30):
                    r = vp.rng('C22', syn, tag, n, i)
                    e = action(r, 1, syn, tag)
                    e['form'] = 'map'
                    e['attrs'] = [a for a in e['attrs'] if a['n'] != n] + [
                        attr(n, *(wrong(r, syn) if i % 3 else value(r, ATTRS[tag][n], syn)))]
                    add({'root': 'launch', 'kids': [e]}, syn, r)
        for i in range(6000 if th else 350):
            r = vp.rng('C22', syn, 'tree', i)
            doc = {'root': 'launch', 'kids': [action(r, 3, syn) for _ in range(r.choice([0, 1, 2, 3]))]}
            add(doc, syn, r)
            cs = list(corruptions(doc, syn, r))
            for d in r.sample(cs, min(len(cs), 12)):
                add(d, syn, r)
    n = 150
    jobs = [{'ops': ops[k:k + n]} for k in range(0, len(ops), n)]
    simple.run('documents', prop, res, scratch, 'frontend_driver', jobs, 'FrontendTrace',
               lambda j, r: {'ops': r['ops']}, mc=[('FrontendMC', 'FrontendMC.cfg')],
               bound='%d documents: every action with every attribute, single changes of them, '
               'and of random trees of depth 3' % len(ops))

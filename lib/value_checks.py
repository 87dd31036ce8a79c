"""C20: Boolean, comparison and conditional substitutions, conditions, types (spec Values)."""
import itertools
import re

import simple
import vp

BOOLS = ['true', 'false', 'True', 'FALSE', '1', '0', 'on', 'off', 'Yes', 'no', 'TRUE', 'False']
TEXTS = BOOLS + ['tRue', 'y', '', 'x', '2', '1.0', '0.0', ' true', 'true ', '1 ', ' 0', '-1',
                 'null', '~', "'true'", '"1"', '[true]', '01', '0x1', '1e0', '.0', 'nan', 'inf',
                 'o n', 'TRUe', 'oN', '+1', 'None', 'fALSE', 'a b']
NUMBERS = ['1', '1.0', '01', '1e0', '10e-1', '.1e1', '0.1', '.1', '1e-1', '-0', '0', '0.0', '-1',
           '100', '1e2', '1E+2', '1_00', '1__0', '_1', 'inf', 'Infinity', '-inf', 'nan', 'NaN',
           '0.3', '0.30000000000000', '0.300000000000001', '0.3000001', '1000000000',
           '1000000001', '1000000002', '999999999', '999999999.5', '0.99999999999', '1e200',
           '1e-200', '+5', '5.', '5', '5.000000001', '5.00000001', '5.0000000001', ' 5', '5 ',
           '0x10', '16', '1e', 'e1', '.', '1.5.2', '-.5', '-0.5', '123456789012345',
           '123456789012346', '0.123456789012345', '- 1', '1,5', 'infinite', '1e+-1']
TYPES = ['any', 'bool', 'int', 'float', 'str', '[bool]', '[int]', '[float]', '[str]']
ITEMS = ['1', '2', '-3', '0', '1.5', '-0.5', '1.', '.5', '1e3', '1.0e+3', '2.5E-2', 'true', 'off',
         'No', 'x', 'a b', "'1'", '"true"', "'it''s'", '', '~', 'null', '0x1F', '0b11', '017', '08',
         '1_000', '.inf', '-.INF', '.nan', 'y', '+4', '-.5', '[1]', 'on', "''", 'Null', 'x-y', '1x']
CHARS = ['1', '0', '.', '-', 'e', '[', ']', ',', ' ', "'", 'on', '_', 'x', 'true', '+', '7', 'E',
         '"', '0x', '~']
# outside of what the specification describes: block sequences, dates, values without digits
OUTSIDE = re.compile(r'(^|[\[,\s])[-?](\s|$|[,\]])|\d{4}-\d|0[xb][_+-]*($|[^0-9a-fA-F_])|^[-+]?0_+$|'
                     r'\n\s*\S|[:#{}&*!|>%@`=\\]|[-+]?0[xb]?_+([,\] ]|$)|[\'"][^,\]\s]|[-?]\[')
# (a base of more than 30 bits, an exponent beyond the range of a float)
HUGE = re.compile(r'0x[\w]{7}|0b[\w]{28}|\b0\d{9}|[eE][-+]?[\d_]{3}|[\d_]{8}[eE]|[\d._]{17}|\d[eE][-+]?[4-9]\d\d')


def within(t):
    return not OUTSIDE.search(t) and not HUGE.search(t)


def lit(t, bare=False):
    return {'k': 'lit', 'text': t, 'a': [], 'bare': bare}


def node(k, *a):
    return {'k': k, 'text': '', 'a': list(a)}


def leaf(r):
    x = r.random()
    if x < .6:
        return lit(r.choice(BOOLS), r.random() < .5)
    if x < .9:
        return lit(r.choice(TEXTS), r.random() < .5)
    if x < .95:
        return node('cat', *[lit(r.choice(['t', 'rue', 'fal', 'se', '1', '', 'o', 'n', 'true']))
                             for _ in range(r.choice([1, 2, 2, 3]))])
    return {'k': 'fail', 'text': '', 'a': []}


def tree(r, depth):
    if depth == 0 or r.random() < .12:
        return leaf(r)
    k = r.choice(['not', 'and', 'or', 'any', 'all', 'if', 'equals', 'not-equals', 'cat'])
    if k == 'cat':
        return node(k, *[tree(r, depth - 1) for _ in range(r.choice([1, 1, 2]))])
    if k in ('equals', 'not-equals'):
        if r.random() < .4:
            return node(k, tree(r, depth - 1), tree(r, depth - 1))
        return node(k, operand(r), operand(r))
    if k == 'if':
        a = [tree(r, depth - 1) for _ in range(r.choice([2, 3, 3]))]
        if all(x['k'] == 'lit' and x['text'] == '' for x in a[1:]):
            a[1] = lit('x')
        return node(k, *a)
    n = {'not': 1, 'and': 2, 'or': 2}.get(k) or r.choice([0, 1, 2, 3, 4])
    return node(k, *[tree(r, depth - 1) for _ in range(n)])


def operand(r):
    x = r.random()
    if x < .1:
        v = r.choice([('none', ''), ('true', 'true'), ('false', 'false')])
        return {'k': 'pyval', 'text': v[1], 'py': v[0], 'a': []}
    if x < .2:
        v = r.choice([1, 0, 2, -1, 1.0, 0.5, 100, 1e2, 0.1])
        return {'k': 'pyval', 'text': str(v), 'py': 'num', 'num': v, 'a': []}
    return lit(r.choice(r.choice([NUMBERS, NUMBERS, TEXTS])), r.random() < .5)


def simple_text(n):
    """May the tree be written as an unquoted argument?"""
    if n['k'] == 'lit':
        return n['text'] != '' and not re.search(r'\s', n['text'])
    if n['k'] == 'pyval' or (n['k'] == 'cat' and not n['a']):
        return False
    return all(simple_text(x) for x in n['a'])


def yaml_text(r):
    x = r.random()
    if x < .35:
        return r.choice(['', ' ', '']) + r.choice(ITEMS) + r.choice(['', '', ' '])
    if x < .85:
        one = r.choice([['1', '-2', '30', '0x1F'], ['true', 'off', 'No'], ['1.5', '.5', '-2.0'],
                        ['x', "'1'", '"true"', 'a b'], ITEMS, ITEMS])
        items = [r.choice(one) for _ in range(r.choice([0, 1, 2, 3]))]
        if items and r.random() < .15:
            items[r.randrange(len(items))] = r.choice(ITEMS)
        t = '[' + r.choice([',', ', ', ' , ']).join(items) + r.choice(['', '', '', ',', ' ']) + ']'
        if r.random() < .12:
            i = r.randrange(len(t))
            t = t[:i] + r.choice(CHARS + ['']) + t[i + r.choice([0, 1]):]
        return t
    return ''.join(r.choice(CHARS) for _ in range(r.choice([2, 4, 6])))


def scalar(r, t):
    v = {'bool': ['true', 'false'], 'int': ['1', '0', '-5', '12'], 'float': ['1.5', '-2.0', '0.5'],
         'str': ['a', '1', 'true', '']}[t]
    v = r.choice(v)
    if t == 'float':
        return {'t': t, 'v': {'1.5': '0.15e1', '-2.0': '-0.2e1', '0.5': '0.5e0'}[v], 'py': v,
                'l': []}
    return {'t': t, 'v': v, 'l': []}


def subs(r, text=None):
    t = r.choice(['1', '2', 'true', 'off', '1.5', 'x', '', '[1]', '[a, b]']) if text is None else text
    i = r.randrange(len(t) + 1)
    return {'t': 'subs', 'v': t, 'l': [], 'all': r.random() < .5, 'bare': r.random() < .5,
            'parts': [t] if r.random() < .6 else [t[:i], t[i:]]}


def pyvalue(r):
    x = r.random()
    if x < .2:
        return scalar(r, r.choice(['bool', 'int', 'float', 'str']))
    if x < .3:
        return subs(r, yaml_text(r))
    if x < .33:
        return {'t': 'none', 'v': '', 'l': []}
    ts = r.choice([['bool'], ['int'], ['float'], ['str'], ['int', 'float'], ['bool', 'int'],
                   ['int', 'str'], ['bool', 'str']])
    items = []
    for _ in range(r.choice([0, 1, 2, 3])):
        if r.random() < .3:
            s = subs(r, {'bool': r.choice(['true', 'off', '1', 'x']), 'int': r.choice(['7', '1.5', 'x']),
                         'float': r.choice(['7', '1.5', 'x']), 'str': r.choice(['q', '1'])}[ts[0]])
            items.append(dict(s, bare=False))
        else:
            items.append(scalar(r, r.choice(ts)))
    if items and r.random() < .05:
        items.append({'t': 'none', 'v': '', 'l': []})
    return {'t': 'list', 'v': '', 'l': items}


def valued(x):
    return {'t': x['t'], 'v': x['v'], 'l': []} if x['t'] != 'list' else x


def run_values(prop, res, scratch):
    th = vp.TIER == 'thorough'
    ops = []
    # every operator on every pair of texts, in both forms
    for a in TEXTS:
        for form in ('py', 'text'):
            for k in ('not', 'any', 'all'):
                ops.append({'o': 'eval', 'form': form, 'n': node(k, lit(a))})
            ops.append({'o': 'eval', 'form': form, 'n': node('if', lit(a), lit('p'), lit('q'))})
            for u in (False, True):
                ops.append({'o': 'cond', 'form': form, 'unless': u, 'n': lit(a, True)})
        for b in TEXTS:
            for k in ('and', 'or', 'any', 'all', 'equals', 'not-equals'):
                ops.append({'o': 'eval', 'form': 'py', 'n': node(k, lit(a), lit(b))})
    for a in NUMBERS:
        for b in NUMBERS:
            ops.append({'o': 'eval', 'form': 'text', 'n': node('equals', lit(a), lit(b))})
            ops.append({'o': 'eval', 'form': 'py', 'n': node('not-equals', lit(a), lit(b))})
    for i in range(60000 if th else 6000):
        r = vp.rng('C20', 'tree', i)
        n = tree(r, r.choice([1, 2, 3, 4]))
        ops.append({'o': 'eval', 'form': r.choice(['py', 'text']), 'n': n} if r.random() < .8 else
                   {'o': 'cond', 'form': r.choice(['py', 'text']), 'n': n,
                    'unless': r.random() < .5})
    values = ['none', '=', '=a', '=b', '=true', '=True', '=none']
    for a in values:
        for b in values:
            for neg in (False, True):
                ops.append({'o': 'config', 'set': a, 'want': b, 'neg': neg})
    for t in TEXTS + NUMBERS + ITEMS:
        for ty in TYPES:
            ops.append({'o': 'coerce', 'text': t, 'type': ty})
    for n in range(4 if th else 3):
        for c in itertools.product(CHARS, repeat=n):
            ops.append({'o': 'coerce', 'text': ''.join(c), 'type': 'any'})
    for i in range(90000 if th else 9000):
        r = vp.rng('C20', 'yaml', i)
        t = yaml_text(r)
        j = r.randrange(len(t) + 1)
        ops.append({'o': 'coerce', 'text': t, 'type': r.choice(TYPES),
                    'parts': [t[:j], t[j:]] if r.random() < .3 else [t]})
    for i in range(40000 if th else 5000):
        r = vp.rng('C20', 'typed', i)
        ops.append({'o': 'typed', 'x': pyvalue(r), 'type': r.choice(TYPES)})
    good = []
    for op in ops:
        if op.get('form') == 'text' and not simple_text(op['n']):
            op['form'] = 'py'
        if op['o'] == 'coerce' and not within(op['text']):
            continue
        if op['o'] == 'typed' and not all(within(x['v']) for x in [op['x']] + op['x']['l']
                                          if x['t'] == 'subs'):
            continue
        good.append(op)
    n = 150
    jobs = [{'ops': good[k:k + n]} for k in range(0, len(good), n)]

    def trace(j, r):
        return {'ops': r['ops']}
    simple.run('values', prop, res, scratch, 'value_driver', jobs, 'ValuesTrace', trace,
               mc=[('ValuesMC', 'ValuesMCdeep.cfg' if th else 'ValuesMC.cfg')],
               bound='every operator on every pair of %d texts, all pairs of %d numbers, %d '
               'operations altogether' % (len(TEXTS), len(NUMBERS), len(good)))

"""What substitutions, conditions and typed evaluation give (C20)."""
import decimal
import warnings
from typing import List

TYPES = {'any': None, 'bool': bool, 'int': int, 'float': float, 'str': str, '[bool]': List[bool],
         '[int]': List[int], '[float]': List[float], '[str]': List[str]}


def canon(x):
    if x != x:
        return 'nan'
    if x in (float('inf'), float('-inf')):
        return '-inf' if x < 0 else 'inf'
    sign, digits, exp = decimal.Decimal(repr(x)).as_tuple()
    d = ''.join(map(str, digits)).lstrip('0')
    e = len(d) + exp
    d = d.rstrip('0')
    if not d:
        return '0.e0'
    return ('-' if sign else '') + '0.' + d + 'e' + str(e)


def value(x):
    """A value as the specification writes it."""
    out = {'ok': True, 't': type(x).__name__, 'v': '', 'l': []}
    if isinstance(x, list):
        out['l'] = [value(i) for i in x]
    elif isinstance(x, bool):
        out['v'] = 'true' if x else 'false'
    elif isinstance(x, int):
        out['v'] = str(x)
    elif isinstance(x, float):
        out['v'] = canon(x)
    elif isinstance(x, str):
        out['v'] = x
    else:
        out['t'] = 'other:' + repr(x)
    return out


def build(n, operand=False):
    """A substitution, or what may stand for one as an operand."""
    from launch import substitutions as S
    k, a = n['k'], n['a']
    if k == 'lit':
        return n['text'] if n.get('bare') and operand else S.TextSubstitution(text=n['text'])
    if k == 'fail':
        return S.LaunchConfiguration('not set')
    if k == 'config':
        raise AssertionError
    if k == 'pyval':
        return {'none': None, 'true': True, 'false': False}.get(n['py'], n.get('num'))
    if k == 'cat':
        out = []
        for x in a:
            b = build(x)
            out += b if isinstance(b, list) else [b]
        return out or [S.TextSubstitution(text='')]
    args = [build(x, True) for x in a]
    cls = {'not': S.NotSubstitution, 'and': S.AndSubstitution, 'or': S.OrSubstitution,
           'any': S.AnySubstitution, 'all': S.AllSubstitution, 'if': S.IfElseSubstitution,
           'equals': S.EqualsSubstitution, 'not-equals': S.NotEqualsSubstitution}[k]
    return cls(*args)


def text(n):
    """The same tree as a launch file has it."""
    if n['k'] == 'lit':
        return ''.join('\\' + c if c in '\\\'"$()' else c for c in n['text'])
    if n['k'] == 'cat':
        return ''.join(text(x) for x in n['a'])
    if n['k'] == 'fail':
        return '$(var nothing)'
    return '$(' + n['k'] + ''.join(' ' + text(x) for x in n['a']) + ')'


def subs_of(op):
    from launch.frontend import Parser
    from launch.utilities import normalize_to_list_of_substitutions
    if op.get('form') == 'text':
        return Parser().parse_substitution(text(op['n']))
    return normalize_to_list_of_substitutions(build(op['n'], True))


def python(x):
    from launch.substitutions import TextSubstitution
    t = x['t']
    if t == 'list':
        return [python(i) for i in x['l']]
    if t == 'subs':
        parts = x.get('parts') or [x['v']]
        out = [TextSubstitution(text=p) if i == 0 or x.get('all') else p
               for i, p in enumerate(parts)]
        return out[0] if len(out) == 1 and x.get('bare') else out
    return {'bool': lambda v: v == 'true', 'int': int, 'float': lambda v: float(x['py']),
            'str': str, 'none': lambda v: None}[t](x['v'])


def do(op):
    from launch import LaunchContext
    from launch.conditions import IfCondition, UnlessCondition
    from launch.conditions import LaunchConfigurationEquals, LaunchConfigurationNotEquals
    from launch.utilities import perform_substitutions
    from launch.utilities.type_utils import normalize_typed_substitution
    from launch.utilities.type_utils import perform_typed_substitution
    context = LaunchContext()
    o = op['o']
    if o == 'eval':
        return {'ok': True, 'v': perform_substitutions(context, subs_of(op))}
    if o == 'cond':
        c = (UnlessCondition if op['unless'] else IfCondition)(subs_of(op))
        return {'ok': True, 'v': {True: 'true', False: 'false'}[c.evaluate(context)]}
    if o == 'config':
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            c = (LaunchConfigurationNotEquals if op['neg'] else LaunchConfigurationEquals)(
                'c', None if op['want'] == 'none' else op['want'][1:])
        if op['set'] != 'none':
            context.launch_configurations['c'] = op['set'][1:]
        return {'ok': True, 'v': {True: 'true', False: 'false'}[c.evaluate(context)]}
    if o == 'coerce':
        subs = normalize_typed_substitution(
            python({'t': 'subs', 'v': op['text'], 'parts': op.get('parts')}), TYPES[op['type']])
        return value(perform_typed_substitution(context, subs, TYPES[op['type']]))
    if o == 'typed':
        subs = normalize_typed_substitution(python(op['x']), TYPES[op['type']])
        return value(perform_typed_substitution(context, subs, TYPES[op['type']]))


def one(op):
    try:
        return do(op)
    except Exception as e:
        return {'ok': False, 'v': '', 'why': '%s: %s' % (type(e).__name__, str(e)[:100])}


def run(job, scratch):
    return {'ops': [dict(op, got=one(op)) for op in job['ops']]}

"""Which documents the real front ends accept, and what they read in them (C22)."""
import io
import xml.etree.ElementTree as ET

import yaml

_ready = []


def setup():
    if _ready:
        return
    _ready.append(1)
    import launch  # noqa: F401
    from launch.frontend import Parser
    import launch_xml
    import launch_yaml
    Parser.extensions_loaded = True
    Parser.frontend_parsers = {'xml': launch_xml.Parser, 'yaml': launch_yaml.Parser}


def to_xml(n):
    x = ET.Element(n['tag'], {a['n']: a['v'] for a in n['attrs']})
    for c in n['subs'] + n['kids']:
        x.append(to_xml(c))
    return x


def typed(a):
    return {'s': str, 'i': int, 'f': float, 'b': lambda v: v == 'true', 'z': lambda v: None,
            'l': lambda v: [v], 'd': lambda v: {'x': v}}[a['t']](a['v'])


def content(n):
    if n['form'] == 'list':
        return [to_yaml(c) for c in n['kids']]
    if n['form'] != 'map':
        return {'text': 'name value', 'null': None, 'number': 3, 'empty': ''}[n['form']]
    d = {a['n']: typed(a) for a in n['attrs']}
    for c in n['subs']:
        d.setdefault(c['tag'], []).append(content(c))
    if n['haskids']:
        d['children'] = [to_yaml(c) for c in n['kids']]
    return d


def to_yaml(n):
    return {n['tag']: content(n)}


def document(doc, syn):
    if syn == 'xml':
        x = ET.Element(doc['root'])
        for c in doc['kids']:
            x.append(to_xml(c))
        return ET.tostring(x, encoding='unicode')
    return yaml.safe_dump({doc['root']: [to_yaml(c) for c in doc['kids']]}, sort_keys=False)


TAGS = {'SetLaunchConfiguration': 'let', 'SetEnvironmentVariable': 'set_env',
        'UnsetEnvironmentVariable': 'unset_env', 'AppendEnvironmentVariable': 'append_env',
        'ResetEnvironment': 'reset_env', 'ResetLaunchConfigurations': 'reset', 'LogInfo': 'log',
        'Shutdown': 'shutdown', 'IncludeLaunchDescription': 'include',
        'DeclareLaunchArgument': 'arg', 'GroupAction': 'group', 'TimerAction': 'timer',
        'ExecuteProcess': 'executable'}


def contents(action, tag, parts):
    """The actions that a group or a timer was made with."""
    if tag == 'timer':
        return list(action.actions)
    return parts[id(action)]


def run(job, scratch):
    setup()
    from launch.actions import GroupAction
    from launch.frontend import Parser
    from launch.substitutions import TextSubstitution
    parts = {}
    init = GroupAction.__init__

    def noted(self, actions, **kw):
        actions = list(actions)
        parts[id(self)] = actions
        init(self, actions, **kw)

    def source(subs):
        return ''.join(s.text if isinstance(s, TextSubstitution) else '?' for s in subs)

    def told(actions):
        out = []
        for a in actions:
            tag = TAGS.get(type(a).__name__, type(a).__name__)
            out.append(tag)
            if tag == 'log':
                out.append(source(a.msg))
            if tag in ('group', 'timer'):
                out += told(contents(a, tag, parts))
        return out
    GroupAction.__init__ = noted
    ops = []
    try:
        for op in job['ops']:
            text = document(op['doc'], op['syn'])
            parts.clear()
            try:
                if op['any']:
                    root, parser = Parser.load(io.StringIO(text))
                else:
                    root, parser = Parser.frontend_parsers[op['syn']].load(io.StringIO(text))
                got = {'ok': True, 'told': told(parser.parse_description(root).entities)}
            except Exception as e:
                got = {'ok': False, 'told': [], 'why': '%s: %s' % (type(e).__name__, str(e)[:200])}
            ops.append(dict(op, got=got))
    finally:
        GroupAction.__init__ = init
    return {'ops': ops}

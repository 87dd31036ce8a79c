"""Writes Engine programs as XML and YAML launch files and loads them (C22)."""
import io
import os
import re
import shlex
import xml.etree.ElementTree as ET
import zlib

import yaml


class No(Exception):
    """This cannot be written in a launch file."""


def pick(n, what, options):
    """One of the ways to write the same, always the same one for the same node."""
    return options[zlib.crc32(('%s %s' % (n['id'], what)).encode()) % len(options)]


def escape(t, chars):
    return re.sub('([%s])' % re.escape('\\' + chars), r'\\\1', t)


def sub(p, q):
    if p['t'] == 'loc':
        if p['v'] == 'current_launch_file_directory':
            return '$(dirname)'
        if p['v'] == 'current_launch_file_path':
            return '$(filename)'
        raise No
    name = {'lc': 'var', 'env': 'env'}[p['t']]
    out = '$(%s %s' % (name, arg(p['n'], q))
    if p['hd']:
        out += ' ' + arg(p['d'], q)
    return out + ')'


def literal(parts):
    return ''.join(p['v'] for p in parts if p['t'] == 't')


def arg(parts, q):
    t = literal(parts)
    if re.search(r'\s', t) or not (t or any(p['t'] != 't' for p in parts)):
        if q:
            raise No
        q = "'" if zlib.crc32(t.encode()) % 2 else '"'
        return q + ''.join(escape(p['v'], '$' + q) if p['t'] == 't' else sub(p, q)
                           for p in parts) + q
    return ''.join(escape(p['v'], '$()\'"') if p['t'] == 't' else sub(p, q) for p in parts)


def text(parts):
    return ''.join(escape(p['v'], '$') if p['t'] == 't' else sub(p, '') for p in parts)


def word(parts):
    """One word of a command line; what is literal is quoted as for a shell."""
    out = []
    for p in parts:
        if p['t'] != 't':
            out.append(sub(p, ''))
        elif p['v']:
            out.append(escape(shlex.quote(p['v']), '$'))
    if not out:
        return "''"
    if all(p['t'] != 't' or not p['v'] for p in parts):
        out.insert(0, '')
    return ''.join(out)


class Doc:
    def __init__(self, cx, syntax):
        self.cx, self.syntax = cx, syntax

    def flag(self, n, what, v, default):
        if v == default and pick(n, what, [0, 1]):
            return {}
        if self.syntax == 'yaml':
            return {what: v}
        return {what: pick(n, what + '?', ['true', 'True', '1'] if v else
                           ['false', 'False', '0'])}

    def number(self, n, what, v):
        """A number of seconds."""
        return {what: v if self.syntax == 'yaml' else repr(v)}

    def cond(self, c):
        if c['t'] == 'none':
            return {}
        if c['t'] in ('if', 'unless'):
            return {c['t']: text(c['v'])}
        raise No

    def entity(self, n):
        try:
            return self.entity_(n)
        except No:
            attrs = {'id': '%s %d' % (n['id'], len(self.cx.vp))}
            try:
                attrs.update(self.cond(n['cond']))
                n = dict(n, cond={'t': 'none'})
            except No:
                pass
            self.cx.vp[attrs['id']] = n
            return ('vp', attrs, [], None)

    def entities(self, ns):
        return [self.entity(n) for n in ns]

    def entity_(self, n):
        k = n['k']
        if k in ('desc', 'pushlc', 'poplc', 'pushenv', 'popenv'):
            raise No
        a = self.cond(n['cond'])
        if k == 'setlc':
            return ('let', dict(a, name=text(n['n']), value=text(n['v'])), [], None)
        if k == 'resetlc':
            return ('reset', a, [('keep', {'name': text(x), 'value': text(y)})
                                 for x, y in n['keep']], None)
        if k == 'setenv':
            return ('set_env', dict(a, name=text(n['n']), value=text(n['v'])), [], None)
        if k == 'unsetenv':
            return ('unset_env', dict(a, name=text(n['n'])), [], None)
        if k == 'appendenv':
            a.update(name=text(n['n']), value=text(n['v']))
            if n.get('prelc') is not None:
                a['prepend'] = text(n['prelc'])
            else:
                a.update(self.flag(n, 'prepend', n['pre'], False))
            if literal(n['sep']) != os.pathsep or pick(n, 'sep', [0, 1]):
                a['separator'] = text(n['sep'])
            return ('append_env', a, [], None)
        if k == 'resetenv':
            return ('reset_env', a, [], None)
        if k == 'group':
            a.update(self.flag(n, 'scoped', n['scoped'], True))
            a.update(self.flag(n, 'forwarding', n['fwd'], True))
            return ('group', a, [('keep', {'name': text(x), 'value': text(y)})
                                 for x, y in n['lcs']], self.entities(n['body']))
        if k == 'inc':
            if '/no/' in n['file'] or not n.get('syntax'):
                raise No
            args = [('arg', {'name': text(x), 'value': text(y)}) for x, y in n['args']]
            path = n['file'].replace('@', self.cx.scratch, 1)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, 'w') as f:
                f.write(document(self.cx, n['body'], n['syntax']))
            return ('include', dict(a, file=escape(path, '$')), args, None)
        if k == 'declarg':
            a['name'] = n['name']
            if n['hd']:
                a['default'] = text(n['d'])
            if pick(n, 'description', [0, 1, 1]):
                a['description'] = 'about ' + n['name']
            return ('arg', a, [('choice', {'value': escape(c, '')}) for c in n['choices']]
                    if n['hc'] else [], None)
        if k == 'timer':
            p = n['period']
            if len(p) == 1 and p[0]['t'] == 't' and pick(n, 'period', [0, 1, 1]):
                a.update(self.number(n, 'period', float(p[0]['v'])))
            else:
                a['period'] = text(p)
            a.update(self.flag(n, 'cancel_on_shutdown', n['cos'], True))
            return ('timer', a, [], self.entities(n['body']))
        if k == 'shutdown':
            return ('shutdown', dict(a, reason='u:' + n['id']), [], None)
        if k == 'proc':
            return self.process(n, a)
        raise No

    def process(self, n, a):
        if n['hasenv'] or n['cached'] or n.get('fmt'):
            raise No
        own = []
        a['cmd'] = ' '.join(word(w) for w in n['cmd'])
        if n['onexit']:
            if [(x['k'], x['id'], x['cond']['t']) for x in n['onexit']] != \
                    [('shutdown', 'error', 'none')]:
                raise No
            a['on_exit'] = 'shutdown'
        if not n['haspf']:
            a['launch-prefix'] = text(n['prefix'])
        if n['hasname']:
            a['name'] = text(n['name'])
        if n['hascwd']:
            a['cwd'] = text(n['cwd'])
        if n['delay'] or n.get('zerodelay'):
            a.update(self.number(n, 'respawn_delay', n['delay'] / 1000.0))
        if n['max'] != -1:
            a['respawn_max_retries'] = n['max'] if self.syntax == 'yaml' else str(n['max'])
        if n['resp'] != [{'t': 't', 'v': 'false'}] or pick(n, 'respawn', [0, 1]):
            a['respawn'] = text(n['resp'])
        for key, name in (('tt', 'sigterm_timeout'), ('kt', 'sigkill_timeout')):
            v = n[key]
            if v[0]['t'] == 'lc' and v[0]['n'][0]['v'] == name:
                continue        # the default
            if v[0]['t'] != 't':
                raise No
            a.update(self.number(n, name, float(v[0]['v'])))
        for x, y in n['addenv']:
            own.append(('env', {'name': text(x), 'value': text(y)}))
        a['output'] = 'nonsense' if n['badout'] else 'own_log'
        if n['shell'] or pick(n, 'shell', [0, 1]):
            a.update(self.flag(n, 'shell', n['shell'], None))
        self.cx.nodes[n['id']] = n
        return ('executable', a, own, None)


def to_xml(e):
    tag, attrs, subs, kids = e
    x = ET.Element(tag, {k: v for k, v in attrs.items()})
    for t, a in subs:
        x.append(ET.Element(t, a))
    for c in kids or []:
        x.append(to_xml(c))
    return x


def to_yaml(e):
    tag, attrs, subs, kids = e
    d = dict(attrs)
    for t, a in subs:
        d.setdefault(t, []).append(a)
    if kids is not None:
        if not d and len(kids) % 2:
            return {tag: [to_yaml(c) for c in kids]}
        d['children'] = [to_yaml(c) for c in kids]
    return {tag: d}


def document(cx, nodes, syntax):
    e = ('launch', {}, [], Doc(cx, syntax).entities(nodes))
    if syntax == 'xml':
        x = to_xml(e)
        ET.indent(x)
        return ET.tostring(x, encoding='unicode')
    return yaml.safe_dump({'launch': [to_yaml(c) for c in e[3]]}, sort_keys=False,
                          allow_unicode=True)


current = []


def setup(cx, build):
    """Make the parsers known, and the actions that are built by the program."""
    from launch import Action
    from launch.actions import ExecuteProcess
    from launch.frontend import expose, Parser
    import launch_xml
    import launch_yaml
    Parser.extensions_loaded = True
    Parser.frontend_parsers = {'xml': launch_xml.Parser, 'yaml': launch_yaml.Parser}
    current[:] = [cx, build]
    cx.vp = {}
    if 'vp' in expose.action_parse_methods:
        return

    def parse(entity, parser):
        _, kw = Action.parse(entity, parser)
        cx, build = current
        n = cx.vp[entity.get_attr('id')]
        return (lambda **kw: build(cx, n, kw)), kw
    expose.expose_action('vp')(parse)
    real = expose.action_parse_methods['executable']

    def executable(entity, parser):
        # the process is one of the program: its last word says which
        cls, kw = real(entity, parser)
        cx = current[0]
        p = re.findall('#(P[0-9]+)', entity.get_attr('cmd'))[-1]

        def make(**kw):
            a = cls(**kw)
            cx.procs[p] = a
            cx.ids[id(a)] = p
            cx.keep.append(a)
            return a
        return make, kw
    expose.action_parse_methods['executable'] = executable


def description(cx, nodes, syntax, build):
    from launch.frontend import Parser
    setup(cx, build)
    text = document(cx, nodes, syntax)
    cx.docs.append(text)
    root, parser = Parser.load(io.StringIO(text))
    return parser.parse_description(root)

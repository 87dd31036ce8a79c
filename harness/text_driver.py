"""What the front end makes of texts and command lines (C21)."""
_ready = []


def text_of(subs, context):
    return ''.join(context.perform_substitution(s) for s in subs)


def setup():
    if _ready:
        return _ready[0]
    from launch import LaunchContext
    from launch import Substitution
    from launch.frontend import expose_substitution
    from launch.frontend import Parser
    from launch.substitutions import TextSubstitution
    from launch_yaml.entity import Entity

    class Probe(Substitution):
        def __init__(self, name, data):
            super().__init__()
            self.name, self.data = name, data

        def perform(self, context):
            if self.name == 'e':
                return ''
            if self.name == 'sp':
                return " a  'b "
            return '%s<%s>' % (self.name, '|'.join(text_of(a, context) for a in self.data))

    def expose(name):
        @expose_substitution(name)
        class P(Probe):
            @classmethod
            def parse(cls, data):
                return Probe, {'name': name, 'data': data}
        return P
    for n in ('v', 'w-1', 'sp', 'e', 'Bx_2'):
        expose(n)

    def pieces(subs):
        out = []
        for s in subs:
            if isinstance(s, TextSubstitution):
                if s.text == '':
                    continue
                if out and out[-1]['k'] == 't':
                    out[-1]['text'] += s.text
                else:
                    out.append({'k': 't', 'text': s.text, 'args': []})
            elif isinstance(s, Probe):
                out.append({'k': 's', 'text': s.name, 'args': [pieces(a) for a in s.data]})
            else:
                out.append({'k': 'other', 'text': repr(s), 'args': []})
        return out
    parse_substitution = Parser().parse_substitution

    def do(op):
        try:
            if op['o'] == 'cmd':
                action = Parser().parse_action(Entity({'cmd': op['text']}, 'executable'))
                context = LaunchContext()
                return {'ok': True, 'w': [text_of(w, context) for w in action.cmd]}
            subs = parse_substitution(op['text'])
            if op['o'] == 'eval':
                return {'ok': True, 'v': text_of(subs, LaunchContext())}
            return {'ok': True, 'p': pieces(subs)}
        except Exception as e:
            return {'ok': False, 'why': '%s: %s' % (type(e).__name__, str(e)[:120])}
    _ready.append(do)
    return do


def run(job, scratch):
    do = setup()
    return {'ops': [dict(op, got=do(op)) for op in job['ops']]}

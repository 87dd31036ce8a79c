"""What output and exit code assertions of launch_testing accept (C25)."""
import re

_ready = []


def enc(t):
    """Bytes of a text: { } are the two bytes of an accented letter, ~ the escape character."""
    return t.encode().replace(b'{', b'\xc3').replace(b'}', b'\xa9').replace(b'~', b'\x1b')


def plain(t):
    return enc(t).decode()


def back(t):
    return t.replace('\xe9', '{}').replace('\x1b', '~')


def regex(items):
    out = ''
    for it in items:
        cs = ''.join('\\' + c if c in '\\]^-[' else c for c in plain(it['cs']))
        if not it['neg'] and len(cs) == 1:
            one = re.escape(cs)
        else:
            one = '[' + ('^' if it['neg'] else '') + cs + ']'
        out += one + {'1': '', '*': '*', '?': '?'}[it['rep']]
    return re.compile(out)


def expectation(e):
    if e['t'] == 'str':
        return plain(e['s'])
    if e['t'] == 're':
        return regex(e['items'])
    return [expectation(x) for x in e['l']]


def setup():
    if _ready:
        return _ready[0]
    from launch.actions import ExecuteProcess
    from launch.events.process import ProcessExited, ProcessStarted, ProcessStderr, ProcessStdout
    from launch_testing import asserts, tools
    from launch_testing.event_handlers import StdoutReadyListener
    from launch_testing.io_handler import ActiveIoHandler, IoHandler
    from launch_testing.proc_info_handler import ActiveProcInfoHandler, ProcInfoHandler
    from launch_testing.util import NoMatchingProcessException

    class Proc(ExecuteProcess):
        def __init__(self, i, name, args):
            super().__init__(cmd=['x'] + args)
            self.d = {'action': self, 'name': name, 'cmd': ['x'] + args, 'cwd': None,
                      'env': None, 'pid': 100 + i}

        @property
        def process_details(self):
            return self.d

    def filter_of(f):
        if not f['on']:
            return None
        return tools.basic_output_filter(
            filtered_prefixes=[plain(x) for x in f['prefixes']],
            filtered_patterns=[regex(x).pattern for x in f['patterns']])

    def selection(sel, procs):
        who = {'all': None, 'action': procs[sel['i'] - 1] if procs else None,
               'name': sel['name']}[sel['by']]
        args = {'any': None, 'none': asserts.NO_CMD_ARGS,
                'list': sel['list'][0] if sel['single'] and sel['list'] else sel['list'],
                }[sel['args']]
        return who, args

    def verdict(f):
        try:
            f()
            return 'ok'
        except AssertionError:
            return 'fail'
        except NoMatchingProcessException:
            return 'nomatch'
        except Exception as e:
            return 'many' if type(e) is Exception else 'error'

    def do(op):
        o = op['o']
        procs = [Proc(i, p['name'], p['args']) for i, p in enumerate(op['procs'], 1)]

        def events():
            return [(ProcessStdout if c['fd'] == 1 else ProcessStderr)(
                text=enc(c['t']), **procs[c['p'] - 1].d) for c in op['chunks']]
        if o in ('text', 'lines'):
            given = {'text': plain(op['text'])} if op['given'] == 'text' else \
                {'lines': [plain(x) for x in op['lines']]}
            given['expected_text' if o == 'text' else 'expected_lines'] = expectation(op['e'])
            try:
                return 'ok' if tools.expect_output(
                    strip_ansi_escape_sequences=op['strip'], strict=op['strict'], **given) \
                    else 'fail'
            except Exception as e:
                return 'error ' + repr(e)
        if o == 'filter':
            return back(filter_of(op['filter'])(plain(op['text'])))
        if o == 'exit':
            h = (ActiveProcInfoHandler if op['active'] else ProcInfoHandler)()
            for x in op['ended']:
                h.append(ProcessStarted(**procs[x['p'] - 1].d))
            for x in op['ended']:
                if x['over']:
                    h.append(ProcessExited(returncode=x['code'], **procs[x['p'] - 1].d))
            who, args = selection(op['sel'], procs)
            return verdict(lambda: asserts.assertExitCodes(
                h, op['allowed'], who, args, strict_proc_matching=op['sel']['strict']))
        if o == 'ready':
            sel = op['sel']
            mark = [Proc(99, 'm', [])]
            lis = StdoutReadyListener(
                target_action=procs[sel['i'] - 1] if sel['by'] == 'action' else None,
                ready_txt=plain(op['txt']), actions=mark)
            got = []
            for ev in events():
                r = lis.handle(ev, CONTEXT) if lis.matches(ev) else None
                got.append(r is not None and mark[0] in flat(r))
            return got
        h = (ActiveIoHandler if op['active'] else IoHandler)()
        for p in procs:
            if op['tracked']:
                h.track(p.d['name'])
        for ev in events():
            h.append(ev)
        if o == 'proxy':
            a = h
            p = tools.ProcessProxy(procs[op['sel']['i'] - 1], ActiveProcInfoHandler(), a,
                                   output_filter=filter_of(op['filter']))
            return back({0: lambda: p.output, 1: lambda: p.stdout, 2: lambda: p.stderr}[op['fd']]())
        who, args = selection(op['sel'], procs)
        if o == 'assert':
            f = asserts.assertInStdout if op['fd'] == 1 else asserts.assertInStderr
            return verdict(lambda: f(
                h, expectation(op['e']), who, args, output_filter=filter_of(op['filter']),
                strict_proc_matching=op['sel']['strict'],
                strip_ansi_escape_sequences=op['strip']))
        got = []

        def seq():
            with asserts.assertSequentialStdout(h, who, args) as checker:
                for w in op['wants']:
                    try:
                        checker.assertInStdout(plain(w))
                        got.append(True)
                    except AssertionError:
                        got.append(False)
        v = verdict(seq)
        return got if v == 'ok' else [v]

    def flat(x):
        if isinstance(x, (list, tuple)):
            return [z for y in x for z in flat(y)]
        return [x]
    from launch import LaunchContext
    CONTEXT = LaunchContext()
    _ready.append(do)
    return do


def run(job, scratch):
    do = setup()
    return {'ops': [dict(op, got=do(op)) for op in job['ops']]}

"""Where output goes: runs operations on launch.logging, or processes of a launch run (C26)."""
import io
import logging
import os
import re
import shutil
import sys
import tempfile

import vloop

STAMP = re.compile(r'^\d{9,}\.\d{7} (.*)$')


class Place:
    """A log directory and a screen."""

    def __init__(self, scratch):
        import launch.logging
        self.scratch = scratch
        self.dirs = []
        self.L = launch.logging
        self.saved = sys.stdout
        self.fresh()

    def fresh(self):
        self.dir = tempfile.mkdtemp(dir=self.scratch)
        self.dirs.append(self.dir)
        self.screen = io.StringIO()
        sys.stdout = self.screen
        self.L.reset()
        self.L.launch_config.log_dir = self.dir

    def close(self):
        self.L.reset()
        sys.stdout = self.saved
        for d in self.dirs:
            shutil.rmtree(d, ignore_errors=True)

    def look(self, keep=lambda line: True, rename=lambda s: s):
        got = []

        def add(dest, text):
            lines = [rename(x) for x in text.splitlines() if keep(x)]
            if lines:
                got.append([rename(dest), lines])
        add('screen', self.screen.getvalue())
        for f in sorted(os.listdir(self.dir)):
            text = open(os.path.join(self.dir, f), encoding='utf-8').read()
            if f == 'launch.log':
                out = []
                for x in text.splitlines():
                    m = STAMP.match(x)
                    out.append(m.group(1) if m else 'without a time: ' + x)
                text = '\n'.join(out)
            add(f, text)
        return got


SPELL = {}


def option(opt, spell=0):
    """The Python value of an option of the specification, in one of its spellings."""
    if opt['t'] == 'name':
        return opt['v']
    d = {}
    for src in ('both', 'stdout', 'stderr'):
        w = opt[src]
        if w or spell & 8:
            kind = spell & 3
            if len(w) == 1 and kind == 0:
                d[src] = w[0]
            elif kind == 1:
                d[src] = set(w)
            elif kind == 2:
                d[src] = tuple(w)
            else:
                d[src] = list(w)
    if spell & 4:
        d = dict(reversed(list(d.items())))
    if opt['bad']:
        d['stdin'] = 'screen'
    return d


def run(job, scratch):
    return {'direct': direct, 'service': service}[job['mode']](job, scratch)


def direct(job, scratch):
    place = Place(scratch)
    ops = []
    loggers = {}
    try:
        for op in job['ops']:
            op = dict(op)
            o = op['o']
            if o == 'conf':
                try:
                    a, b = place.L.get_output_loggers(op['p'], option(op['opt'], op['spell']))
                    loggers[op['p'], 'stdout'], loggers[op['p'], 'stderr'] = a, b
                    op['refused'] = False
                except ValueError:
                    op['refused'] = True
            elif o == 'line':
                lg = loggers.get((op['p'], op['src']))
                if lg is None:
                    lg = logging.getLogger('%s-%s' % (op['p'], op['src']))
                lg.info(op['text'])
            elif o == 'msg':
                place.L.get_logger(op['p']).info(op['text'])
                op['text'] = '[INFO] [%s]: %s' % (op['p'], op['text'])
            elif o == 'rotate':
                f = os.path.join(place.dir, op['p'])
                if os.path.exists(f):
                    os.rename(f, os.path.join(place.dirs[0], '..', 'old-%d' % len(ops)))
            elif o == 'reset':
                place.fresh()
                loggers = {}
            elif o == 'look':
                op['got'] = place.look()
            ops.append(op)
    finally:
        place.close()
    return {'ops': ops}


def service(job, scratch):
    """job: procs [{p, opt, style, ov, agenda:[{t,fd,text}], at, code}], order of conf by time."""
    from launch import LaunchDescription, LaunchService
    from launch import actions as A
    from launch.substitutions import LaunchConfiguration
    loop = vloop.new_loop(max_steps=20000)
    place = Place(scratch)
    saved = os.environ.get('OVERRIDE_LAUNCH_PROCESS_OUTPUT')
    acts = {}
    spawned = []
    try:
        ls = LaunchService()
        body = []
        for p in job['procs']:
            if p['ov'] != '-':
                os.environ['OVERRIDE_LAUNCH_PROCESS_OUTPUT'] = p['ov']
            else:
                os.environ.pop('OVERRIDE_LAUNCH_PROCESS_OUTPUT', None)
            o = option(p['opt'], p['spell'])
            if isinstance(o, str) and p['spell'] & 1:
                ls.context.launch_configurations['out' + p['p']] = o
                o = LaunchConfiguration('out' + p['p'])
            kw = {} if p['default'] else {'output': o}
            a = A.ExecuteProcess(cmd=['prog', '#' + p['p']], name=p['p'], **kw)
            acts[p['p']] = a
            body.append(a if not p['at'] else A.TimerAction(period=p['at'] / 1000.0, actions=[a]))
        os.environ.pop('OVERRIDE_LAUNCH_PROCESS_OUTPUT', None)

        def script(index, cmd, shell, cwd, env):
            name = cmd[-1][1:]
            p = [x for x in job['procs'] if x['p'] == name][0]
            spawned.append(name)
            return {'agenda': [dict(x, k='data') for x in p['agenda']]
                    + [{'k': 'exit', 't': p['end'], 'code': 0}]}
        loop.scripter = script
        ls.include_launch_description(LaunchDescription(body))
        try:
            rc = ls.run()
        except (vloop.Hang, vloop.Runaway) as e:
            return {'crash': repr(e)}
        full = {p: a.process_details['name'] for p, a in acts.items()
                if a.process_details is not None}
        back = {v: k for k, v in full.items()}

        def rename(s):
            for name, p in back.items():
                if s.startswith('[%s] ' % name):
                    return '[%s]' % p + s[len(name) + 2:]
                for tail in ('.log', '-stdout.log', '-stderr.log'):
                    if s == name + tail:
                        return p + tail
            return s
        # what was written, in the order of time
        ops = []
        for p in sorted(job['procs'], key=lambda x: x['at']):
            ops.append((p['at'], {'o': 'conf', 'p': p['p'], 'opt': p['opt'], 'ov': p['ov'],
                                  'refused': p['p'] not in spawned}))
            if p['p'] not in spawned:
                continue
            for x in p['agenda']:
                ops += [(p['at'] + x['t'], {
                    'o': 'line', 'p': p['p'], 'src': 'stdout' if x['fd'] == 1 else 'stderr',
                    'text': '[%s] %s' % (p['p'], y)}) for y in x['text'].split('\n')[:-1]]
        ops = [o for _, o in sorted(ops, key=lambda x: x[0])]
        ops.append({'o': 'look', 'got': place.look(lambda line: '~' in line, rename)})
        return {'ops': ops, 'rc': rc}
    finally:
        place.close()
        vloop.close_loop(loop)
        os.environ.pop('OVERRIDE_LAUNCH_PROCESS_OUTPUT', None)
        if saved is not None:
            os.environ['OVERRIDE_LAUNCH_PROCESS_OUTPUT'] = saved

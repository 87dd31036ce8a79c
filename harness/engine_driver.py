"""Runs an Engine program (nested JSON nodes, see spec/Engine.tla) on the real launch package."""
import asyncio
import os
import signal

import vloop


ENV_PREFIX = 'VE_'


class Ctx:
    def __init__(self, prog, scratch):
        self.prog = prog
        self.obs = []
        self.shared = {}
        self.evs = []          # events seen by the observer
        self.timers = {}
        self.cancelled = set()  # timers cancelled before they were constructed
        self.handlers = {}
        self.ids = {}          # id(action) -> model id
        self.keep = []         # keeps actions alive so that id() stays unique
        self.scratch = scratch
        self.loop = None
        self.base_env = None
        self.procs = {}        # model id -> action
        self.nodes = {}        # model id -> node
        self.spawned = {}      # model id -> number of starts so far
        self.pids = {}         # pid -> (model id, instance)
        self.names = {}        # unique process name -> (model id, output format)
        self.docs = []         # launch files written and loaded
        self.vp = {}


def event_class():
    from launch import Event
    global UsrEvent
    try:
        return UsrEvent
    except NameError:
        pass

    class UsrEvent_(Event):
        def __init__(self, name, eid):
            super().__init__()
            self.kind = name
            self.eid = eid
    UsrEvent = UsrEvent_
    return UsrEvent


def reason_of(r):
    r = r if isinstance(r, str) else str(r)
    if r.startswith('u:'):
        return r[2:]
    if r == 'idle':
        return 'idle'
    if 'ctrl-c' in r:
        return 'sigint'
    if 'shutdown()' in r:
        return 'call'
    return 'error'


def event_id(cx, e):
    from launch.events import ExecutionComplete, IncludeLaunchDescription, Shutdown, TimerEvent
    if isinstance(e, event_class()):
        return e.eid
    if isinstance(e, Shutdown):
        return 'shut:' + reason_of(e.reason)
    if isinstance(e, IncludeLaunchDescription):
        return 'inc'
    if isinstance(e, TimerEvent):
        return 'timer'
    if isinstance(e, ExecutionComplete):
        return 'cmp:' + cx.ids.get(id(e.action), '?')
    from launch.events.process import ProcessTargetedEvent, RunningProcessEvent
    if isinstance(e, ProcessTargetedEvent):
        return getattr(e, 'vp_id', '')
    if isinstance(e, RunningProcessEvent):
        return running_id(cx, e)
    return 'other:' + type(e).__name__


def running_id(cx, e):
    from launch.events.process import ProcessExited, ProcessIO, ProcessStarted
    p, inst = cx.pids.get(e.pid, ('pid %s' % e.pid, 0))
    if cx.ids.get(id(e.action)) != p:
        p = '%s(action of %s)' % (p, cx.ids.get(id(e.action)))
    elif e.process_name not in cx.names:
        p = p + '(name %s)' % e.process_name
    who = '%s.%d' % (p, inst)
    if isinstance(e, ProcessStarted):
        return 'pstart:' + who
    if isinstance(e, ProcessExited):
        return 'pexit:%s:%d' % (who, e.returncode)
    if isinstance(e, ProcessIO):
        fd = 1 if e.from_stdout else 2 if e.from_stderr else 0
        return 'pio:%s:%d:%s' % (who, fd, vloop.from_bytes(e.text))
    return 'other:' + type(e).__name__


def val(parts):
    from launch.substitutions import (EnvironmentVariable, LaunchConfiguration, LocalSubstitution,
                                      TextSubstitution)
    out = []
    for p in parts:
        if p['t'] == 't':
            out.append(TextSubstitution(text=p['v']))
        elif p['t'] == 'lc':
            kw = {'default': val(p['d'])} if p['hd'] else {}
            out.append(LaunchConfiguration(val(p['n']), **kw))
        elif p['t'] == 'env':
            kw = {'default_value': val(p['d'])} if p['hd'] else {}
            out.append(EnvironmentVariable(val(p['n']), **kw))
        elif p['t'] == 'loc':
            from launch.substitutions import ThisLaunchFile, ThisLaunchFileDir
            if p['v'] == 'current_launch_file_directory':
                out.append(ThisLaunchFileDir())
            elif p['v'] == 'current_launch_file_path':
                out.append(ThisLaunchFile())
            else:
                out.append(LocalSubstitution(p['v']))
    return out


def cond(c):
    from launch.conditions import (IfCondition, LaunchConfigurationEquals,
                                   LaunchConfigurationNotEquals, UnlessCondition)
    if c['t'] == 'none':
        return {}
    if c['t'] == 'if':
        return {'condition': IfCondition(val(c['v']))}
    if c['t'] == 'unless':
        return {'condition': UnlessCondition(val(c['v']))}
    cls = LaunchConfigurationEquals if c['t'] == 'eq' else LaunchConfigurationNotEquals
    return {'condition': cls(c['n'], None if c['isnone'] else val(c['v']))}


def snapshot(cx, context):
    locs = {}
    for k, v in context.get_locals_as_dict().items():
        locs[k] = event_id(cx, v) if k == 'event' else str(v)
    env = dict(os.environ)
    vis = {k: v for k, v in env.items() if k.startswith(ENV_PREFIX)}
    rest = {k: v for k, v in env.items() if not k.startswith(ENV_PREFIX)}
    if rest != cx.base_env:
        vis['<other variables changed>'] = '1'
    return (sorted(map(list, context.launch_configurations.items())),
            sorted(map(list, vis.items())), sorted(map(list, locs.items())))


def probe(cx, nid):
    def fn(context):
        lc, env, loc = snapshot(cx, context)
        cx.obs.append({'o': 'probe', 'id': nid, 't': cx.loop.ms, 'lc': lc, 'env': env,
                       'loc': loc})
    return fn


def handler(cx, h):
    if h['id'] in cx.handlers:
        return cx.handlers[h['id']]
    from launch import EventHandler
    from launch.event_handlers import OnExecutionComplete, OnShutdown
    m = h['m']
    kw = {'handle_once': True} if h['once'] else {}
    if m['t'] == 'usr':
        cls, names = event_class(), set(m['names'])
        r = EventHandler(matcher=lambda e: isinstance(e, cls) and e.kind in names,
                         entities=build_all(cx, h['body']), **kw)
    elif m['t'] == 'shut':
        style = h.get('style', 'fn')
        if style == 'fn':
            r = OnShutdown(on_shutdown=lambda e, c: build_all(cx, h['body']) or None, **kw)
        else:
            r = OnShutdown(on_shutdown=build_all(cx, h['body']), **kw)
    elif m['t'] == 'timer':
        from launch.events import TimerEvent
        r = EventHandler(matcher=lambda e: isinstance(e, TimerEvent),
                         entities=build_all(cx, h['body']), **kw)
    elif m['t'] == 'cmp':
        kw['on_completion'] = build_all(cx, h['body']) or (lambda e, c: None)
        if not m['any']:
            ids = set(m['ids'])
            kw['target_action'] = lambda a: cx.ids.get(id(a), '?') in ids
            if len(ids) == 1 and h.get('style') == 'obj':
                tgt = next((a for a in cx.keep if cx.ids.get(id(a)) in ids), None)
                if tgt is not None:
                    kw['target_action'] = tgt
        else:
            # actions that are not part of the program (internals of groups) are not observed
            kw['target_action'] = lambda a: (
                id(a) in cx.ids and not cx.ids[id(a)].startswith('h:'))
        r = OnExecutionComplete(**kw)
    elif m['t'] == 'pev':
        r = process_handler(cx, h, m, kw)
    elif m['t'] in ('psig', 'pshut'):
        from launch.events.process import ShutdownProcess, SignalProcess
        pcls = SignalProcess if m['t'] == 'psig' else ShutdownProcess
        r = EventHandler(matcher=lambda e: isinstance(e, pcls),
                         entities=build_all(cx, h['body']), **kw)
    else:
        raise AssertionError(m)
    cx.handlers[h['id']] = r
    return r


def process_handler(cx, h, m, kw):
    from launch.event_handlers import OnProcessExit, OnProcessIO, OnProcessStart
    body = build_all(cx, h['body'])
    if not m['any']:
        ids = set(m['ids'])
        kw['target_action'] = lambda a: cx.ids.get(id(a)) in ids
        if len(ids) == 1 and h.get('style') == 'obj' and m['ids'][0] in cx.procs:
            kw['target_action'] = cx.procs[m['ids'][0]]
    if m['k'] == 'pio':
        fd = m.get('fd', 0)

        def out(event):
            return body
        if fd != 2:
            kw['on_stdout'] = out
        if fd != 1:
            kw['on_stderr'] = out
        return OnProcessIO(**kw)
    what = body if h.get('style') != 'fn' else lambda e, c: body
    if m['k'] == 'pstart':
        return OnProcessStart(on_start=what, **kw)
    return OnProcessExit(on_exit=what, **kw)


def matcher(cx, m):
    """The process matcher of a process-targeted event, bound when the event is emitted."""
    from launch.events.matchers import matches_action
    from launch.events.process import matches_executable, matches_name, matches_pid
    if m['t'] == 'all':
        return lambda action: True
    if m['t'] == 'ids':
        if len(m['ids']) == 1 and m['ids'][0] in cx.procs:
            return matches_action(cx.procs[m['ids'][0]])
        return lambda action: cx.ids.get(id(action)) in m['ids']
    if m['t'] == 'exe':
        return matches_executable(m['v'])
    details = m['of'] in cx.procs and cx.procs[m['of']].process_details
    if m['t'] == 'pid' and details and details.get('pid') is not None:
        return matches_pid(details['pid'])
    if m['t'] == 'name' and details:
        return matches_name(details['name'])
    return lambda action: False


def targeted(cx, n):
    import signal as sigs
    from launch.events.process import ShutdownProcess, SignalProcess

    def fn(context):
        if n['k'] == 'psig':
            num = n['sig'] if n.get('byname') and n['sig'] == 'SIGKILL' else getattr(sigs, n['sig'])
            ev = SignalProcess(signal_number=num, process_matcher=matcher(cx, n['m']))
        else:
            ev = ShutdownProcess(process_matcher=matcher(cx, n['m']))
        ev.vp_id = n['id']
        context.emit_event_sync(ev)
    return fn


def cacheq(cx, n):
    def fn(context):
        a = cx.procs.get(n['of'])
        if a is None or cx.loop is None or not cx.nodes[n['of']]['cached']:
            return
        if a.get_asyncio_future() is None:
            return      # never executed
        cx.obs.append({'o': 'cache', 'id': n['id'], 'of': n['of'], 't': cx.loop.ms,
                       'out': vloop.from_text(a.get_stdout()),
                       'err': vloop.from_text(a.get_stderr())})
    return fn


def process(cx, n, c):
    from launch import actions as A
    kw = dict(c)
    if not n['haspf']:
        kw['prefix'] = val(n['prefix'])
    if n['hasname']:
        kw['name'] = val(n['name'])
    if n['hascwd']:
        kw['cwd'] = val(n['cwd'])
    if n['hasenv']:
        kw['env'] = {tuple(val(a)): val(b) for a, b in n['env']}
    if n['addenv']:
        kw['additional_env'] = {tuple(val(a)): val(b) for a, b in n['addenv']}
    if n['delay'] or n.get('zerodelay'):
        kw['respawn_delay'] = n['delay'] / 1000.0
    if n['max'] != -1:
        kw['respawn_max_retries'] = n['max']
    if n['resp'] != [{'t': 't', 'v': 'false'}]:
        kw['respawn'] = True if n['resp'] == [{'t': 't', 'v': 'true'}] else val(n['resp'])
    for key, arg, cfg in (('tt', 'sigterm_timeout', 'sigterm_timeout'),
                          ('kt', 'sigkill_timeout', 'sigkill_timeout')):
        if not (n[key] and n[key][0]['t'] == 'lc' and n[key][0]['n'][0]['v'] == cfg):
            kw[arg] = val(n[key])
    if n['onexit']:
        body = build_all(cx, n['onexit'])
        style = n.get('style', 'list')
        kw['on_exit'] = body if style == 'list' else (lambda event, context: body)
    if n['badout']:
        kw['output'] = 'nonsense'
    else:
        kw['output'] = 'own_log' if n.get('outdict') else {'stdout': 'own_log',
                                                           'stderr': 'own_log'}
    if n.get('fmt'):
        kw['output_format'] = '<{line}>'
    if n['shell']:
        kw['shell'] = True
    if n['cached']:
        kw['cached_output'] = True
    a = A.ExecuteProcess(cmd=[val(w) for w in n['cmd']], **kw)
    cx.procs[n['id']] = a
    cx.nodes[n['id']] = n
    return a


def note_names(cx):
    """Every execution must have a name of its own."""
    for p, a in cx.procs.items():
        d = a.process_details
        if d is not None and d['name'] not in cx.names:
            cx.names[d['name']] = p
        elif d is not None and cx.names[d['name']] != p:
            cx.names[d['name']] = '%s and %s have the same name' % (p, cx.names[d['name']])


def scripter(cx):
    def script(index, cmd, shell, cwd, env):
        p = cmd[-1].split(' ')[-1].lstrip('#')
        note_names(cx)
        if p not in cx.nodes:
            cx.obs.append({'o': 'spawn', 'id': '?', 'cmd': cmd, 't': cx.loop.ms})
            return {'agenda': [{'k': 'exit', 't': 1, 'code': 0}]}
        inst = cx.spawned[p] = cx.spawned.get(p, 0) + 1
        n = cx.nodes[p]
        env = dict(env) if env is not None else {}
        vis = {k: v for k, v in env.items() if k.startswith(ENV_PREFIX)}
        rest = {k: v for k, v in env.items() if not k.startswith(ENV_PREFIX)}
        if rest != ({} if n['hasenv'] else cx.base_env):
            vis['<other variables changed>'] = '1'
        cx.obs.append({'o': 'spawn', 'id': p, 't': cx.loop.ms, 'shell': shell, 'cmd': cmd,
                       'name': cx.procs[p].process_details['name'].rpartition('-')[0],
                       'hascwd': cwd is not None, 'cwd': cwd or '',
                       'env': sorted(map(list, vis.items()))})
        s = dict(n['script'][min(inst, len(n['script'])) - 1])
        s['who'] = (p, inst)
        return s
    return script


def plog(cx):
    def log(ev, **kw):
        if ev == 'up':
            cx.pids[kw['pid']] = cx.loop.procs[kw['inst']].script.get('who', ('?', 0))
            return
        if ev not in ('sig', 'died', 'closekill'):
            return
        p, inst = cx.pids[kw['pid']]
        o = {'o': ev, 'id': p, 'inst': inst, 't': cx.loop.ms}
        if ev == 'sig':
            o['sig'] = kw['sig']
        elif ev == 'died':
            o['code'] = kw['code']
        cx.obs.append(o)
    return log


def log_factory(cx):
    import logging

    class Memory(logging.Handler):
        """A log file: what the run logs to the files of the processes is observed."""

        def __init__(self, path):
            super().__init__()
            self.name_ = os.path.basename(path)

        def setFormatterFor(self, logger, formatter):  # noqa: N802
            pass

        def unsetFormatterFor(self, logger):  # noqa: N802
            pass

        def emit(self, record):
            for fd, suffix in ((1, '-stdout.log'), (2, '-stderr.log')):
                if self.name_.endswith(suffix):
                    name = self.name_[:-len(suffix)]
                    break
            else:
                return
            note_names(cx)
            p = cx.names.get(name, 'name ' + name)
            text = record.getMessage()
            if cx.nodes.get(p, {}).get('fmt'):
                ok = text[:1] == '<' and text[-1:] == '>'
                line = text[1:-1]
            else:
                head = '[%s] ' % name
                ok = text.startswith(head)
                line = text[len(head):]
            cx.obs.append({'o': 'log', 'id': p, 'fd': fd, 't': cx.loop.ms,
                           'text': vloop.from_text(line) if ok else 'badly formatted: ' + text})
    return lambda path, encoding=None: Memory(path)


def co_fn(cx, n):
    async def run(context):
        try:
            for st in n['steps']:
                if st['k'] == 'sleep':
                    await asyncio.sleep(st['d'] / 1000.0)
                elif st['k'] == 'mark':
                    cx.obs.append({'o': 'co', 'id': n['id'], 'n': st['id'], 't': cx.loop.ms})
                elif st['k'] == 'emit':
                    context.emit_event_sync(event_class()(st['name'], st['id']))
                elif st['k'] == 'raise':
                    raise RuntimeError('scripted coroutine failure')
        except asyncio.CancelledError:
            cx.obs.append({'o': 'cocancel', 'id': n['id'], 't': cx.loop.ms})
            raise
    return run


def cancel_timer(cx, key):
    if key in cx.timers:
        cx.timers[key].cancel()
    else:
        cx.cancelled.add(key)


def build_all(cx, nodes):
    return [build(cx, n) for n in nodes]


def build(cx, n, kw=None):
    if n.get('shared') and n['id'] in cx.shared:
        return cx.shared[n['id']]       # the same object stands at several places
    a = build_(cx, n, kw)
    if n.get('shared'):
        cx.shared[n['id']] = a
    if n['id'] and n['k'] != 'desc':
        cx.ids[id(a)] = n['id']
    cx.keep.append(a)
    return a


def build_(cx, n, kw):
    from launch import LaunchDescription, LaunchDescriptionSource
    from launch import actions as A
    k = n['k']
    c = dict(cond(n['cond']), **(kw or {}))
    if k == 'probe':
        return A.OpaqueFunction(function=probe(cx, n['id']), **c)
    if k == 'fn':
        return A.OpaqueFunction(
            function=lambda context: build_all(cx, n['body']) or None, **c)
    if k == 'desc':
        return LaunchDescription(build_all(cx, n['body']))
    if k == 'raise':
        def boom(context):
            raise RuntimeError('scripted failure')
        return A.OpaqueFunction(function=boom, **c)
    if k == 'emit':
        return A.EmitEvent(event=event_class()(n['name'], n['id']), **c)
    if k == 'shutdown':
        return A.Shutdown(reason='u:' + n['id'], **c)
    if k == 'setlc':
        return A.SetLaunchConfiguration(val(n['n']), val(n['v']), **c)
    if k == 'unsetlc':
        return A.UnsetLaunchConfiguration(val(n['n']), **c)
    if k == 'resetlc':
        return A.ResetLaunchConfigurations(
            {tuple(val(a)): val(b) for a, b in n['keep']} or None, **c)
    if k == 'pushlc':
        return A.PushLaunchConfigurations(**c)
    if k == 'poplc':
        return A.PopLaunchConfigurations(**c)
    if k == 'setenv':
        return A.SetEnvironmentVariable(val(n['n']), val(n['v']), **c)
    if k == 'unsetenv':
        return A.UnsetEnvironmentVariable(val(n['n']), **c)
    if k == 'appendenv':
        pre = n['pre']
        if n.get('prelc') is not None:
            pre = val(n['prelc'])
        return A.AppendEnvironmentVariable(val(n['n']), val(n['v']), prepend=pre,
                                           separator=val(n['sep']), **c)
    if k == 'resetenv':
        return A.ResetEnvironment(**c)
    if k == 'pushenv':
        return A.PushEnvironment(**c)
    if k == 'popenv':
        return A.PopEnvironment(**c)
    if k == 'group':
        kw = dict(c)
        if n['lcs']:
            kw['launch_configurations'] = {tuple(val(a)): val(b) for a, b in n['lcs']}
        if not n['scoped']:
            kw['scoped'] = False
        if not n['fwd']:
            kw['forwarding'] = False
        return A.GroupAction(build_all(cx, n['body']), **kw)
    if k == 'inc':
        src = LaunchDescriptionSource(LaunchDescription(build_all(cx, n['body'])),
                                      location=real_path(cx, n['file']))
        return A.IncludeLaunchDescription(
            src, launch_arguments=[(val(a), val(b)) for a, b in n['args']], **c)
    if k == 'declarg':
        kw = dict(c)
        if n['hd']:
            kw['default_value'] = val(n['d'])
        if n['hc']:
            kw['choices'] = list(n['choices'])
        return A.DeclareLaunchArgument(n['name'], **kw)
    if k == 'reg':
        h = handler(cx, n['h'])
        if n['app']:
            return A.OpaqueFunction(
                function=lambda context: context.register_event_handler(h, append=True), **c)
        return A.RegisterEventHandler(h, **c)
    if k == 'unreg':
        if n['hid'] in cx.handlers:
            return A.UnregisterEventHandler(cx.handlers[n['hid']], **c)

        def late(context):
            from launch import EventHandler
            context.unregister_event_handler(
                cx.handlers.get(n['hid']) or EventHandler(matcher=lambda e: False))
        return A.OpaqueFunction(function=late, **c)
    if k == 'loc':
        return A.OpaqueFunction(
            function=lambda context: context.extend_locals({n['name']: n['v']}), **c)
    if k == 'glob':
        return A.OpaqueFunction(
            function=lambda context: context.extend_globals({n['name']: n['v']}), **c)
    if k == 'cancel':
        return A.OpaqueFunction(function=lambda context: cancel_timer(cx, n['key']), **c)
    if k == 'timer':
        p = n['period']
        if len(p) == 1 and p[0]['t'] == 't' and not n.get('subst'):
            per = float(p[0]['v'])
        else:
            per = val(p)
        kw = dict(c)
        if not n['cos']:
            kw['cancel_on_shutdown'] = False
        t = A.TimerAction(period=per, actions=build_all(cx, n['body']), **kw)
        cx.timers[n['id']] = t
        if n['id'] in cx.cancelled:
            t.cancel()
        return t
    if k == 'co':
        return A.OpaqueCoroutine(coroutine=co_fn(cx, n), **c)
    if k == 'proc':
        return process(cx, n, c)
    if k in ('psig', 'pshut'):
        return A.OpaqueFunction(function=targeted(cx, n), **c)
    if k == 'cacheq':
        return A.OpaqueFunction(function=cacheq(cx, n), **c)
    raise AssertionError(k)


def real_path(cx, f):
    """Model paths start with @ (the scratch directory); they exist unless they contain /no/."""
    path = f.replace('@', cx.scratch, 1)
    if '/no/' not in path and not os.path.exists(path):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        open(path, 'w').close()
    return path


def relocate(o, scratch):
    if isinstance(o, str):
        return o.replace(scratch, '@')
    if isinstance(o, (list, tuple)):
        return [relocate(x, scratch) for x in o]
    if isinstance(o, dict):
        return {k: relocate(v, scratch) for k, v in o.items()}
    return o


def at_once(loop, co):
    """Run an awaitable to its end, as far as possible without any other activity between."""
    gen = co.__await__()
    try:
        first = gen.send(None)
    except StopIteration:
        return

    class Rest:
        def __await__(self):
            yield first
            yield from gen

    async def rest():
        await Rest()
    loop.create_task(rest())


def observer(cx):
    """A handler that matches no event, but sees every one that is dispatched to the end."""
    from launch import EventHandler
    from launch.events import ExecutionComplete
    seen = []

    def matcher(event):
        # (completion events are offered to the handlers before they are emitted)
        if not isinstance(event, ExecutionComplete) and not (seen and seen[-1] is event):
            seen.append(event)
            cx.evs.append(event_id(cx, event))
        return False
    return EventHandler(matcher=matcher)


def run(prog, scratch):
    """Return {'obs': [...]} recorded while running the program on launch."""
    from launch import LaunchDescription, LaunchService
    cx = Ctx(prog, scratch)
    saved = dict(os.environ)
    for k in list(os.environ):
        if k.startswith(ENV_PREFIX):
            del os.environ[k]
    for k, v in prog['env0']:
        os.environ[k] = v
    cx.base_env = {k: v for k, v in os.environ.items() if not k.startswith(ENV_PREFIX)}
    loop = vloop.new_loop(max_steps=20000)
    cx.loop = loop
    import launch.logging
    launch.logging.reset()
    launch.logging.launch_config.log_handler_factory = log_factory(cx)
    loop.scripter = scripter(cx)
    loop.plog_fn = plog(cx)
    # (the interpreter may have been started with the signal ignored)
    signal.signal(signal.SIGINT, signal.default_int_handler)
    try:
        ls = LaunchService(noninteractive=prog['nonint'])
        ls.context.register_event_handler(observer(cx))
        for k, v in prog['lc0']:
            ls.context.launch_configurations[k] = v
        for e in prog['pre']:
            if e['k'] == 'inc' and e.get('syntax'):
                import frontend_render
                ls.include_launch_description(
                    frontend_render.description(cx, e['body'], e['syntax'], build))
            elif e['k'] == 'inc':
                ls.include_launch_description(LaunchDescription(build_all(cx, e['body'])))
            else:
                if not e.get('shared'):
                    ls.emit_event(event_class()(e['name'], e['id']))
                else:
                    ls.emit_event(cx.shared.setdefault(
                        e['id'], event_class()(e['name'], e['id'])))
        for e in prog['ext']:
            def ext():
                co = ls.shutdown()
                if co is not None:
                    at_once(loop, co)

            def interrupt():
                os.kill(os.getpid(), signal.SIGINT)
            loop.call_at(e['t'] / 1000.0, ext if e['k'] == 'call' else interrupt)
        try:
            rc = ls.run(shutdown_when_idle=prog['swi'])
            cx.obs.append({'o': 'ret', 'rc': rc, 't': loop.ms})
        except vloop.Hang:
            cx.obs.append({'o': 'hang', 't': loop.ms})
        except vloop.Runaway:
            cx.obs.append({'o': 'runaway', 't': loop.ms})
        except Exception as e:
            cx.obs.append({'o': 'crash', 'id': '%s: %s' % (type(e).__name__, e)})
    finally:
        vloop.close_loop(loop)
        os.environ.clear()
        os.environ.update(saved)
    out = {'obs': relocate(cx.obs, scratch), 'evs': cx.evs}
    if cx.docs:
        out['documents'] = relocate(cx.docs, scratch)
    return out

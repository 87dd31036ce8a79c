"""Process waits of launch_pytest during real runs (C29)."""
import asyncio
import threading
import time

import stall

hangs = 0
PATIENCE = 9


class Counting:
    """The context, counting the handlers registered through it."""

    def __init__(self, context):
        self._c, self.there = context, []

    def register_event_handler(self, h, *args, **kw):
        self.there.append(h)
        return self._c.register_event_handler(h, *args, **kw)

    def unregister_event_handler(self, h):
        r = self._c.unregister_event_handler(h)
        self.there.remove(h)
        return r

    def __getattr__(self, name):
        return getattr(self._c, name)


def script(steps):
    out = []
    for s in steps:
        if s['d']:
            out.append('sleep %.3f' % (s['d'] / 1000))
        if s['kind'] == 'out':
            out.append("printf '%s'%s" % (s['t'], ' >&2' if s['fd'] == 2 else ''))
        elif s['kind'] == 'exit':
            out.append('exit %d' % s['code'])
    return '; '.join(out)


def one(case):
    from launch import LaunchDescription, LaunchService
    from launch.actions import ExecuteProcess, OpaqueCoroutine, RegisterEventHandler, TimerAction
    from launch.event_handlers import OnProcessExit, OnProcessIO, OnProcessStart
    from launch_pytest.tools import process as tools
    t0 = time.monotonic()

    def now():
        return int((time.monotonic() - t0) * 10000)
    arr, ops, entities = [], [], []
    lower = {}
    ls = LaunchService(noninteractive=True)
    context = Counting(ls.context)
    procs = []

    def note(kind, p, s, fd=0, t='', code=0):
        arr.append({'kind': kind, 'p': p, 'fd': fd, 't': t, 'code': code, 's': s, 'c': now() + 1,
                    'id': len(arr) + 1})
    for i, p in enumerate(case['procs'], 1):
        a = ExecuteProcess(cmd=['sh', '-c', script(p['steps'])], cached_output=True,
                           output='log', name=p['name'])
        procs.append(a)
        total = sum(s['d'] for s in p['steps']) * 10

        def early(ev, fd, i=i):
            lower[id(ev)] = now()

        def started(ev, ctx, a=a, i=i):
            ctx.register_event_handler(OnProcessIO(
                target_action=a, on_stdout=lambda e: early(e, 1), on_stderr=lambda e: early(e, 2)))
            note('start', i, 0)

        def got(fd, i=i):
            return lambda ev: note('out', i, lower.get(id(ev), 0), fd, ev.text.decode())

        def ended(ev, ctx, i=i, least=(p['at'] * 10 + total)):
            note('exit', i, least, code=ev.returncode)
        entities += [
            RegisterEventHandler(OnProcessStart(target_action=a, on_start=started)),
            RegisterEventHandler(OnProcessIO(target_action=a, on_stdout=got(1), on_stderr=got(2))),
            RegisterEventHandler(OnProcessExit(target_action=a, on_exit=ended)),
            TimerAction(period=p['at'] / 1000, actions=[a]) if p['at'] else a]

    def asked(w):
        def good(o):
            if w['abort'] == 'raise':
                raise KeyError('boom')
            return (w['txt'] in o) if w['txt'] else o != ''

        def must(o):
            assert good(o)
        a = procs[w['sel']['i'] - 1]
        name = {'pstart': 'wait_for_start', 'pexit': 'wait_for_exit', 'pstream':
                ('assert_' if w['form'] else 'wait_for_') +
                ('output' if w['fd'] == 1 else 'stderr')}[w['api']]
        if w['sync']:
            name += '_sync'
        args = [context, a]
        if w['api'] == 'pstream':
            args.append(must if w['form'] else good)
        kw = {} if w['forever'] else {'timeout': w['limit'] / 10000}
        return getattr(tools, name), args, kw

    def verdict(w, v):
        return 'yes' if v or (w['form'] and v is None) else 'no'

    def failed(e):
        return 'aborted' if repr(e) == "KeyError('boom')" else 'error ' + repr(e)[:200]

    def record(w):
        r = dict(w, b=now(), e=-1, got='hang')
        ops.append(r)
        return r

    def sync(w):
        time.sleep(w['d'] / 1000)
        f, args, kw = asked(w)
        r = record(w)
        try:
            got = verdict(w, f(*args, **kw))
        except AssertionError:
            got = 'no'
        except Exception as e:
            got = failed(e)
        r['e'], r['got'] = now() + 1, got
        finish()

    async def later(w):
        await asyncio.sleep(w['d'] / 1000)
        f, args, kw = asked(w)
        r = record(w)
        try:
            t = asyncio.ensure_future(f(*args, **kw))
            if w['abort'] == 'cancel':
                asyncio.get_running_loop().call_later(w['after'] / 1000, t.cancel)
            got = verdict(w, await t)
        except AssertionError:
            got = 'no'
        except asyncio.CancelledError:
            if w['abort'] != 'cancel':
                raise
            got = 'aborted'
        except Exception as e:
            got = failed(e)
        r['e'], r['got'] = now() + 1, got
        finish()
    left = [len(case['waits'])]
    done = threading.Event()

    def finish():
        left[0] -= 1
        if left[0] == 0:
            done.set()
    threads = []
    for w in case['waits']:
        if w['sync']:
            threads.append(threading.Thread(target=sync, args=(w,), daemon=True))
        else:
            async def co(ctx, w=w):
                await later(w)
            entities.append(OpaqueCoroutine(coroutine=co))
    ok = [True]

    def monitor():
        ok[0] = done.wait(PATIENCE)
        if ok[0]:
            time.sleep(.005)
        counts.append(len(context.there))
        ls.shutdown()
    counts = []
    threads.append(threading.Thread(target=monitor, daemon=True))
    ls.include_launch_description(LaunchDescription(entities))
    for t in threads:
        t.start()
    ls.run(shutdown_when_idle=False)
    for r in ops:
        if r['e'] == -1:
            r['e'] = now()
    threads[-1].join(5)
    if ok[0]:
        ops.append({'o': 'left', 'got': counts[0] if counts else -1})
    arr.sort(key=lambda a: a['c'])
    return {'procs': [{'name': p['name'], 'args': []} for p in case['procs']], 'arr': arr,
            'ops': ops}, not ok[0]


def run(job, scratch):
    global hangs
    if hangs >= 2:
        return {'not_run': True}
    runs, cases = [], []
    for c in job['cases']:
        done = stall.steady(lambda: one(c), .8)
        if done is None:
            # (the machine stood still all the time)
            continue
        r, h = done
        runs.append(r)
        cases.append(c)
        hangs += h
        if hangs >= 2:
            break
    return {'runs': runs, 'cases': cases, 'hang': hangs > 0}

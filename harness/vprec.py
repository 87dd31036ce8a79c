"""Records what happens in test modules run by pytest with launch_pytest (C30)."""
import asyncio
import json
import os
import threading

import pytest

lock = threading.Lock()
cur = {'module': None, 'id': 0, 'p': 0}
seen = {}
latest = [0]
insts = [0]
downs = set()


def put(**op):
    with lock:
        with open(os.environ['VP_PT_LOG'], 'a') as f:
            f.write(json.dumps(dict({'m': cur['module'], 'id': 0, 'p': 0, 'n': 0, 'runs': False,
                                     'loop': True, 'out': ''}, **op)) + '\n')


class Plugin:

    @pytest.hookimpl(tryfirst=True)
    def pytest_runtest_protocol(self, item, nextitem):
        mod = item.module.__name__
        if mod != cur['module']:
            cur['module'] = mod
            insts[0] = 0
            downs.clear()
        i = int(item.originalname.split('_')[1])
        p = 0
        if getattr(item, 'callspec', None) is not None:
            p = max([v for k, v in item.callspec.params.items() if k.startswith('fx')] + [0])
        key = (mod, i, p)
        seen[key] = seen.get(key, 0) + 1
        cur.update(id=i, p=p)
        put(k='start', id=i, p=p, n=seen[key])

    def pytest_runtest_logreport(self, report):
        put(k=report.when, out=report.outcome)


def describe(f, p, launch_kind, ready, seq):
    """Make the launch description of a fixture."""
    import launch
    from launch import actions as la
    from launch.event_handlers import OnShutdown
    from launch_pytest.actions import ReadyToTest
    insts[0] += 1
    n = latest[0] = insts[0]
    put(k='fx', id=f, p=p, n=n)

    def say(k):
        def function(context, *a):
            if k == 'down':
                # (another shutdown may follow while the first is under way)
                if latest[0] != n or n in downs:
                    return
                downs.add(n)
            put(k=k, n=n)
        return la.OpaqueFunction(function=function)

    def boom(context):
        put(k='boom', n=n)
        raise RuntimeError('made to fail')

    down = say('down')
    entities = [
        la.RegisterEventHandler(OnShutdown(on_shutdown=lambda e, c: down.execute(c))),
        say('up')]
    if launch_kind in ('stay', 'err'):
        # (a failing launch is ended by its failure)
        entities.append(la.TimerAction(period=60.0, actions=[]))
    if launch_kind == 'brief':
        entities.append(la.TimerAction(period=0.03, actions=[say('')] and []))
    if launch_kind == 'shut':
        entities.append(la.TimerAction(period=60.0, actions=[]))
    after = []
    if launch_kind == 'err':
        after = [la.TimerAction(period=0.02, actions=[la.OpaqueFunction(function=boom)])]
    if launch_kind == 'shut':
        after = [la.TimerAction(period=0.02, actions=[la.Shutdown(reason='x')])]
    if launch_kind == 'early':
        entities.append(la.OpaqueFunction(function=boom))
    if launch_kind == 'earlyshut':
        entities.append(la.Shutdown(reason='x'))
    act = [say('ready'), ReadyToTest()]
    if launch_kind == 'never':
        from launch.conditions import IfCondition
        act = [la.GroupAction(act, condition=IfCondition('false'))]
    if launch_kind == 'double':
        act = act + [la.GroupAction([ReadyToTest()])]
    if ready == 'absent' and launch_kind not in ('never', 'double'):
        entities += after + [say('ready')]
    elif ready == 'timer':
        entities.append(la.TimerAction(period=0.02, actions=act + after))
    elif ready == 'group':
        entities.append(la.GroupAction(act + after))
    elif ready == 'cond':
        from launch.conditions import IfCondition, UnlessCondition
        entities.append(la.GroupAction(act + after, condition=UnlessCondition('false')))
    elif ready == 'first':
        entities[2:2] = act
        entities += after
    else:
        entities += act + after
    ld = launch.LaunchDescription(entities)
    ld.vp_inst = n
    return (ld, n) if seq == 'tuple' else [ld] if seq == 'list' else ld


def inst(value):
    return (value[0] if isinstance(value, (tuple, list)) else value).vp_inst


def part(k, i, ls, loop, value, kind):
    """Record the start of a part of a test."""
    ok = True
    try:
        here = asyncio.get_running_loop()
    except RuntimeError:
        here = None
    if kind in ('coro', 'agen'):
        ok = here is loop
    elif kind in ('func', 'gen') and k == 'a' and loop is not None:
        async def get():
            return asyncio.get_running_loop()
        if threading.current_thread() is threading.main_thread():
            ok = False
        elif ls.task is not None and not loop.is_closed():
            try:
                ok = asyncio.run_coroutine_threadsafe(get(), loop).result(10) is loop
            except Exception:
                ok = False
    if ls is not None and ls.event_loop is not None and ls.event_loop is not loop:
        ok = False
    runs = ls is not None and ls.task is not None and not ls.task.done()
    put(k=k, id=i, p=cur['p'], n=inst(value) if value is not None else 0, runs=runs, loop=ok)


def finish(how):
    if how == 'fail':
        assert False, 'made to fail'
    if how == 'skip':
        pytest.skip('made to skip')
    if how == 'raise':
        raise ValueError('made to fail')

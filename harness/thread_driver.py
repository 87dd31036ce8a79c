"""Calls on a launch service from several threads, preempted at chosen lines (C18)."""
import asyncio
import os
import signal
import sys
import threading
import time

FILES = ('/launch/launch/launch_service.py', '/launch/launch/launch_context.py')


hangs = 0


class Late(BaseException):
    """The main thread did not come back."""


class Pauses:
    """
    Counts the traced lines of every thread and pauses a thread before chosen ones.

    A paused thread goes on when a given thread has finished or nothing has moved for a moment.
    """

    def __init__(self, points, quiet):
        self.points = {(t, k): w for t, k, w in points}
        self.count = {}
        self.finished = set()
        self.started = {}
        self.last = time.monotonic()
        self.quiet = quiet
        self.gates = {}

    def gate(self, t):
        return self.gates.setdefault(t, threading.Event())

    def settle(self, until=None):
        end = time.monotonic() + .25
        self.last = time.monotonic()
        while time.monotonic() < end:
            if until is not None and until in self.finished:
                return
            time.sleep(.0004)
            if time.monotonic() - self.last > self.quiet:
                return

    def tracer(self, t):
        def local(frame, event, arg):
            if event == 'line':
                k = self.count[t] = self.count.get(t, 0) + 1
                self.last = time.monotonic()
                p = self.points.get((t, k))
                if p is not None:
                    # (a point of the main thread may start another one)
                    if p >= 0:
                        self.gate(p).set()
                    self.settle(p if p >= 0 else None)
            return local

        def top(frame, event, arg):
            if frame.f_code.co_filename.endswith(FILES):
                return local
            return None
        return top


def run(job, scratch):
    """A run that seems to hang is repeated with more patience."""
    global hangs
    if hangs >= 1:
        return {'not_run': True}
    r = attempt(job, 2.5, .003)
    if r['hang']:
        r = attempt(job, 12, .02)
        hangs += r['hang']
    return r


def usr(name):
    from launch import Event
    e = Event()
    e.vp = name
    return e


def attempt(job, patience, quiet):
    import launch.logging
    from launch import EventHandler, LaunchDescription, LaunchService
    from launch.actions import OpaqueFunction
    from launch.event_handlers import OnShutdown
    launch.logging.reset()
    ops = []
    pauses = Pauses(job['points'], quiet)
    loop = asyncio.new_event_loop()
    asyncio.set_event_loop(loop)
    ls = LaunchService(noninteractive=True)
    state = {'hang': False}

    def rec(**kw):
        ops.append(kw)

    def call(t, op):
        kind, e = op['kind'], op.get('e', '')
        rec(o='begin', t=t, kind=kind, e=e)
        r = 'ok'
        try:
            if kind == 'emit':
                if op.get('inc'):
                    ls.include_launch_description(LaunchDescription(
                        [OpaqueFunction(function=lambda context: rec(o='proc', e=e))]))
                else:
                    ls.emit_event(usr(e))
            elif kind == 'shut':
                ls.shutdown()
            elif kind == 'run':
                if t == 0:
                    try:
                        ls.run_async().send(None)
                    except StopIteration:
                        pass
                else:
                    ls.run()
                r = 'accepted'
        except RuntimeError as x:
            r = 'refused' if kind == 'run' else repr(x)
        rec(o='end', t=t, r=r)

    def on_event(event, context):
        rec(o='proc', e=event.vp)
        for op in job['inside'].get(event.vp, []):
            call(0, op)

    ls.context.register_event_handler(EventHandler(
        matcher=lambda e: hasattr(e, 'vp'),
        entities=[OpaqueFunction(function=lambda context: on_event(
            context.locals.event, context))]))
    ls.context.register_event_handler(OnShutdown(
        on_shutdown=lambda event, context: rec(o='proc', e='shutdown')))
    for op in job['before']:
        call(0, op)

    def body(t, prog):
        if t in job['gated']:
            pauses.gate(t).wait(20)
        sys.settrace(pauses.tracer(t))
        try:
            for op in prog:
                call(t, op)
        finally:
            sys.settrace(None)
            pauses.finished.add(t)

    threads = [threading.Thread(target=body, args=(t + 1, p), daemon=True)
               for t, p in enumerate(job['threads'])]

    over = threading.Event()

    def closer():
        """Ends the run for good when the others are done."""
        pauses.settle()
        for t in threads:
            # (the main thread may never get to the line where it starts this one)
            pauses.gate(threads.index(t) + 1).set()
            t.join(patience)
        while not over.is_set() and ls.event_loop is None:
            time.sleep(.001)
        if not over.is_set():
            call(99, {'kind': 'shut'})

    def late(*_):
        raise Late()

    for t in threads:
        t.start()
    cl = None
    if not job['swi']:
        cl = threading.Thread(target=closer, daemon=True)
    sys.stdout.flush()
    old = signal.signal(signal.SIGALRM, late)
    rest = signal.getitimer(signal.ITIMER_REAL)
    try:
        signal.setitimer(signal.ITIMER_REAL, patience * 2, .3)
        try:
            if cl:
                cl.start()
            rec(o='run', swi=job['swi'])
            sys.settrace(pauses.tracer(0))
            try:
                rc = ls.run(shutdown_when_idle=job['swi'])
            finally:
                sys.settrace(None)
                pauses.finished.add(0)
            rec(o='ret', rc=rc)
            over.set()
            for g in list(pauses.gates.values()) + [pauses.gate(t) for t in job['gated']]:
                g.set()
            for t in threads + ([cl] if cl else []):
                t.join(patience)
                if t.is_alive():
                    state['hang'] = True
                    rec(o='hang', t=0)
                    break
            else:
                # what came too late for that run is processed by another one
                rec(o='run', swi=True)
                rec(o='ret', rc=ls.run())
        except Late:
            signal.setitimer(signal.ITIMER_REAL, 0)
            state['hang'] = True
            rec(o='hang', t=1)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        signal.setitimer(signal.ITIMER_REAL, max(1, rest[0]))
        over.set()
        for g in list(pauses.gates.values()):
            g.set()
        asyncio.set_event_loop(None)
        if not state['hang']:
            loop.close()
    return {'ops': ops, 'hang': state['hang'], 'lines': {str(k): v for k, v in
                                                         pauses.count.items()}}

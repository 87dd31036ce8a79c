"""Deterministic asyncio loop: virtual time, scripted child processes, hang detection.

Only standard asyncio extension points are used (a selector object and the documented
``subprocess_exec`` / ``subprocess_shell`` loop methods), so the code under test runs unmodified.
"""
import asyncio
import os
import selectors
import signal


class Hang(BaseException):
    """The loop would block for ever: nothing is ready, scheduled or expected."""


class Runaway(BaseException):
    """The loop did not settle within the step or virtual-time budget."""


class _VSelector(selectors.DefaultSelector):
    def __init__(self):
        super().__init__()
        self.vloop = None
        self.steps = 0

    def select(self, timeout=None):
        ev = super().select(0)
        lp = self.vloop
        self.steps += 1
        if self.steps > lp.max_steps:
            raise Runaway('steps')
        if ev or (timeout is not None and timeout <= 0):
            return ev
        if lp.external_wait is not None:
            # other threads are active: really wait for them first
            ev = super().select(lp.external_wait())
            if ev:
                return ev
        if timeout is None:
            raise Hang()
        lp.advance()
        return []


class FakeProcess:
    """One scripted process instance: see World and Deliver of spec/Engine.tla."""

    def __init__(self, loop, script, index, cmd, shell, cwd, env):
        self.loop, self.script, self.index = loop, script, index
        self.cmd, self.shell, self.cwd, self.env = cmd, shell, cwd, env
        self.pid = loop.next_pid()
        self.returncode = None      # as known to the transport
        self.alive = True
        self.dying = False
        self.transport = FakeTransport(self)
        self.protocol = None
        self.agenda = []
        self.handle = None

    def log(self, ev, **kw):
        self.loop.plog(ev, pid=self.pid, inst=self.index, **kw)

    def start(self):
        # same order as asyncio.base_subprocess: connection_made, then the data that was read
        # while the pipes were being connected, then the task that awaits the spawn is woken up
        now = self.loop.time()
        self.loop.call_soon(self.protocol.connection_made, self.transport)
        self._set([dict(x, at=now + x['t'] / 1000.0) for x in self.script.get('agenda', [])])

    def _set(self, agenda):
        if self.handle is not None:
            self.handle.cancel()
            self.handle = None
        self.agenda = sorted(agenda, key=lambda x: x['at'])
        self._next()

    def _next(self):
        if not self.agenda:
            return
        at = self.agenda[0]['at']
        if at <= self.loop.time():
            self.handle = self.loop.call_soon(self._do)
        else:
            self.handle = self.loop.call_at(at, self._do)

    def _do(self):
        self.handle = None
        x = self.agenda.pop(0)
        if x['k'] == 'data':
            self._next()
            self.protocol.pipe_data_received(x['fd'], to_bytes(x['text']))
        else:
            self.agenda = []
            self.alive = False
            self.code = x['code']
            self.log('died', code=self.code)
            lag = self.script.get('lag', 0)
            if lag:
                self.loop.call_later(lag / 1000.0, self._noticed)
            else:
                self._noticed()

    def _noticed(self):
        self.returncode = self.code
        self.protocol.process_exited()

    def got_signal(self, signum):
        name = signal.Signals(signum).name
        if self.returncode is not None:
            raise ProcessLookupError()
        if not self.alive:
            return
        self.log('sig', sig=name)
        r = self.script.get('on', {}).get(name, {'d': -1})
        if name == 'SIGKILL':
            r = {'d': 1, 'code': -9, 'tail': []}
        if r['d'] < 0 or (self.dying and name != 'SIGKILL'):
            return
        self.dying = True
        now = self.loop.time()
        self._set([dict(x, k='data', at=now + x['t'] / 1000.0) for x in r['tail']]
                  + [{'k': 'exit', 'code': r['code'], 'at': now + r['d'] / 1000.0}])


def to_bytes(text):
    """Texts of the specification: { and } are the two bytes of one character."""
    return text.encode('ascii').replace(b'{', b'\xc3').replace(b'}', b'\xa9')


def from_bytes(data):
    return data.replace(b'\xc3', b'{').replace(b'\xa9', b'}').decode('ascii', 'replace')


def from_text(text):
    return text.replace('\xe9', 'E').replace('\ufffd', '?')


class FakePipe:
    def __init__(self, proc, fd):
        self.proc, self.fd = proc, fd

    def write(self, data):
        self.proc.log('stdin', data=data.hex())

    def close(self):
        pass

    def is_closing(self):
        return False


class FakeTransport(asyncio.SubprocessTransport):
    def __init__(self, proc):
        super().__init__()
        self._p = proc
        self._closed = False

    def get_pid(self):
        return self._p.pid

    def get_returncode(self):
        return self._p.returncode

    def get_pipe_transport(self, fd):
        return FakePipe(self._p, fd)

    def send_signal(self, signal):
        self._p.got_signal(signal)

    def terminate(self):
        self._p.got_signal(signal.SIGTERM)

    def kill(self):
        self._p.got_signal(signal.SIGKILL)

    def is_closing(self):
        return self._closed

    def close(self):
        if self._closed:
            return
        self._closed = True
        if self._p.returncode is None:
            # asyncio kills a child that is still alive when its transport is closed
            self._p.log('closekill')
            self._p.got_signal(signal.SIGKILL)


class VLoop(asyncio.SelectorEventLoop):
    def __init__(self, max_steps=200000, max_time=100000.0):
        sel = _VSelector()
        sel.vloop = self
        self._vt = 0.0
        self.max_steps = max_steps
        self.max_time = max_time
        self.external_wait = None
        self._pid = 1000
        self.procs = []
        self.scripter = None      # f(index, cmd, shell, cwd, env) -> script dict
        self.plog_fn = None
        super().__init__(sel)

    def time(self):
        return self._vt

    @property
    def ms(self):
        return int(round(self._vt * 1000))

    def advance(self):
        when = None
        for h in self._scheduled:
            if not h._cancelled and (when is None or h._when < when):
                when = h._when
        if when is None:
            when = self._vt
        if when > self._vt:
            self._vt = when
        if self._vt > self.max_time:
            raise Runaway('time')

    def next_pid(self):
        self._pid += 1
        return self._pid

    def plog(self, ev, **kw):
        if self.plog_fn is not None:
            self.plog_fn(ev, **kw)

    async def _spawn(self, protocol_factory, cmd, shell, cwd, env):
        index = len(self.procs)
        self.procs.append(None)
        script = self.scripter(index, cmd, shell, cwd, env) if self.scripter else {}
        self.plog('spawn', inst=index, cmd=cmd, shell=shell, cwd=cwd, env=env)
        protocol = protocol_factory()
        lat = script.get('latency', 0)
        if lat:
            await asyncio.sleep(lat / 1000.0)
        else:
            await asyncio.sleep(0)
        if script.get('fail'):
            self.plog('spawnfail', inst=index)
            raise FileNotFoundError(2, 'scripted spawn failure')
        p = FakeProcess(self, script, index, cmd, shell, cwd, env)
        self.procs[index] = p
        p.protocol = protocol
        p.log('up')
        # as in asyncio's _connect_pipes task: the task awaiting the spawn is woken up right after
        # connection_made and the already received data have been scheduled
        waiter = self.create_future()

        def connected():
            p.start()
            waiter.set_result(None)
        self.call_soon(connected)
        await waiter
        return p.transport, protocol

    async def subprocess_exec(self, protocol_factory, program, *args, cwd=None, env=None,
                              **kwargs):
        return await self._spawn(protocol_factory, [program, *args], False, cwd, env)

    async def subprocess_shell(self, protocol_factory, cmd, *, cwd=None, env=None, **kwargs):
        return await self._spawn(protocol_factory, [cmd], True, cwd, env)


def new_loop(**kw):
    loop = VLoop(**kw)
    asyncio.set_event_loop(loop)
    return loop


def close_loop(loop):
    try:
        for t in asyncio.all_tasks(loop):
            t.cancel()
        # let cancellations run, without executing anything else for long
        loop.max_steps += 2000
        loop.external_wait = None

        async def drain():
            for _ in range(20):
                await asyncio.sleep(0)
        loop.plog_fn = None
        loop.set_exception_handler(lambda *_: None)
        loop.run_until_complete(drain())
    except BaseException:
        pass
    try:
        loop.close()
    except BaseException:
        pass
    asyncio.set_event_loop(None)


def self_signal(signum):
    os.kill(os.getpid(), signum)

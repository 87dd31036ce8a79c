"""Runs operations on the signal managers of launch (C19)."""
import _signal
import asyncio
import os
import signal
import socket
import threading

SIGS = {'USR1': signal.SIGUSR1, 'USR2': signal.SIGUSR2, 'WINCH': signal.SIGWINCH,
        'TERM': signal.SIGTERM, 'INT': signal.SIGINT}


class World:
    def __init__(self, job):
        from launch.utilities.signal_management import AsyncSafeSignalManager
        self.M = AsyncSafeSignalManager
        self.job = job
        self.set_fd = _signal.set_wakeup_fd
        signal.set_wakeup_fd = _signal.set_wakeup_fd
        self.set_fd(-1)
        self.loops = {}
        self.users = {}
        self.managers = {}
        self.fns = {}
        self.calls = []
        self.before = {}
        self.acts = {a['name']: a for a in job['acts']}
        for s in SIGS.values():
            self.before[s] = signal.getsignal(s)
            signal.signal(s, lambda *_: None)
        self.handlers = {s: signal.getsignal(s) for s in SIGS.values()}

    def loop(self, k):
        if k not in self.loops:
            self.loops[k] = asyncio.new_event_loop()
        return self.loops[k]

    def manager(self, m):
        if m not in self.managers:
            self.managers[m] = self.M(self.loop(m[-1]))
        return self.managers[m]

    def fd(self, w):
        if w == 'none':
            return -1
        if w not in self.users:
            pair = socket.socketpair()
            for x in pair:
                x.setblocking(False)
            self.users[w] = pair
        return self.users[w][0].fileno()

    def label(self, fd):
        if fd == -1:
            return 'none'
        for w, pair in self.users.items():
            if pair[0].fileno() == fd:
                return w
        return 'a manager'

    def fn(self, m, h):
        """The handler named h for manager m."""
        if h == 'none':
            return None
        if (m, h) not in self.fns:
            def call(signum):
                try:
                    lp = asyncio.get_running_loop()
                except RuntimeError:
                    lp = None
                name = [k for k, v in SIGS.items() if v == signum][0]
                here = [k for k, v in self.loops.items() if v is lp]
                self.calls.append([m, h if here == [m[-1]] else h + ' outside of its loop', name])
                a = self.acts.get(h)
                if a is not None:
                    self.handle(a)
            self.fns[m, h] = call
        return self.fns[m, h]

    def name_of(self, f):
        for (m, h), g in self.fns.items():
            if f is g:
                return h
        return 'none' if f is None else repr(f)

    def handle(self, op):
        num = SIGS[op['sig']]
        return self.name_of(self.manager(op['m']).handle(
            int(num) if op.get('int') else num, self.fn(op['m'], op['h'])))

    def do(self, op):
        o = op['o']
        if o == 'enter':
            self.manager(op['m']).__enter__()
        elif o == 'exit':
            self.manager(op['m']).__exit__(None, None, None)
        elif o == 'handle':
            return self.handle(op)
        elif o == 'setfd':
            return self.label(signal.set_wakeup_fd(self.fd(op['w'])))
        elif o == 'read':
            self.fd(op['w'])
            out = b''
            try:
                while True:
                    out += self.users[op['w']][1].recv(4096)
            except BlockingIOError:
                pass
            back = {v: k for k, v in SIGS.items()}
            return [back.get(x, str(x)) for x in out]
        elif o == 'kill':
            os.kill(os.getpid(), SIGS[op['sig']])
        elif o == 'spin':
            self.calls = []
            lp = self.loop(op['loop'])
            for _ in range(6):
                lp.call_soon(lp.stop)
                lp.run_forever()
            return self.calls
        elif o == 'look':
            fd = self.set_fd(-1)
            self.set_fd(fd)
            same = all(signal.getsignal(s) is h for s, h in self.handlers.items())
            return [self.label(fd), signal.set_wakeup_fd is not _signal.set_wakeup_fd,
                    'same' if same else 'handlers changed']
        elif o == 'refused':
            return self.refused(op)
        return 'ok'

    def refused(self, op):
        got = []

        def attempt(f):
            try:
                f()
                got.append('accepted')
            except ValueError:
                got.append('ValueError')
            except Exception as e:
                got.append(repr(e))
        w = op['what']
        if w == 'thread':
            m = self.M(self.loop('a'))
            t = threading.Thread(target=attempt, args=(m.__enter__,))
            t.start()
            t.join()
        elif w == 'setfd':
            t = threading.Thread(target=attempt, args=(lambda: signal.set_wakeup_fd(-1),))
            t.start()
            t.join()
        elif w == 'callable':
            attempt(lambda: self.manager(op['m']).handle(signal.SIGUSR1, 'text'))
        elif w == 'signum':
            attempt(lambda: self.manager(op['m']).handle(1000, lambda _: None))
        return got[0]

    def close(self):
        signal.set_wakeup_fd = _signal.set_wakeup_fd
        self.set_fd(-1)
        setattr(self.M, '_AsyncSafeSignalManager__current', None)
        for s, h in self.before.items():
            signal.signal(s, h)
        for lp in self.loops.values():
            lp.close()
        for pair in self.users.values():
            for x in pair:
                x.close()


def service(world, op):
    """A launch run inside: as entering, using and leaving a manager of its own."""
    import launch.logging
    from launch import LaunchDescription, LaunchService
    from launch.actions import OpaqueFunction, TimerAction
    launch.logging.reset()
    ls = LaunchService(noninteractive=True)
    late = op['late']

    def kill(context):
        for s in op['sigs']:
            os.kill(os.getpid(), SIGS[s])
    body = [OpaqueFunction(function=kill)]
    if not late:
        body.append(TimerAction(period=0.01, actions=[]))
    ls.include_launch_description(LaunchDescription(body))
    return ls.run()


def run(job, scratch):
    w = World(job)
    ops = []
    try:
        for op in job['ops']:
            op = dict(op)
            if op['o'] == 'service':
                lp = asyncio.new_event_loop()
                asyncio.set_event_loop(lp)
                try:
                    rc = service(w, op)
                finally:
                    lp.close()
                    asyncio.set_event_loop(None)
                m = 'mSz'
                ops += [{'o': 'enter', 'm': m, 'r': 'ok'}]
                ops += [{'o': 'kill', 'sig': s, 'r': 'ok'} for s in op['sigs']]
                ops += [{'o': 'exit', 'm': m, 'r': 'ok'}]
                if rc != 0:
                    return {'crash': 'the launch run returned %s' % rc}
                continue
            try:
                op['r'] = w.do(op)
            except Exception as e:
                op['r'] = '%s: %s' % (type(e).__name__, e)
                ops.append(op)
                break
            ops.append(op)
    finally:
        w.close()
    return {'ops': ops, 'acts': job['acts']}

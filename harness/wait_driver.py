"""Waits of launch_testing while output and exits arrive (C23)."""
import sys
import threading
import time

import stall

from match_driver import enc

hangs = 0
_ready = []
PATIENCE = 9


def setup():
    if _ready:
        return _ready[0]
    from launch.actions import ExecuteProcess
    from launch.events.process import ProcessExited, ProcessStarted, ProcessStderr, ProcessStdout
    from launch_testing import asserts, tools
    from launch_testing.io_handler import ActiveIoHandler
    from launch_testing.proc_info_handler import ActiveProcInfoHandler
    from launch_testing.util import NoMatchingProcessException

    class Proc(ExecuteProcess):
        def __init__(self, i, name, args):
            super().__init__(cmd=['x'] + args)
            self.d = {'action': self, 'name': name, 'cmd': ['x'] + args, 'cwd': None,
                      'env': None, 'pid': 100 + i}

        @property
        def process_details(self):
            return self.d
    import types
    _ready.append(types.SimpleNamespace(**locals()))
    return _ready[0]


def tracer(points, pause):
    """Pause before some of the lines of the code under test."""
    count = [0]

    def local(frame, event, arg):
        if event == 'line':
            count[0] += 1
            if count[0] in points:
                time.sleep(pause)
        return local

    def top(frame, event, arg):
        f = frame.f_code.co_filename
        return local if '/launch_testing/launch_testing/' in f else None
    return top


def classify(m, f):
    try:
        return 'yes' if f() else 'no'
    except AssertionError:
        return 'no'
    except m.NoMatchingProcessException:
        return 'nomatch'
    except Exception as e:
        return 'nomatch' if type(e) is Exception else 'error ' + repr(e)


def one(case):
    m = setup()
    t0 = time.monotonic()

    def now():
        return int((time.monotonic() - t0) * 10000)
    procs = [m.Proc(i, p['name'], p['args']) for i, p in enumerate(case['procs'], 1)]
    io, info = m.ActiveIoHandler(), m.ActiveProcInfoHandler()
    arr, ops = [], []
    ids = {}

    def arrivals():
        for a in case['arr']:
            time.sleep(a['d'] / 1000)
            p = procs[a['p'] - 1]
            r = dict(a, s=now(), c=0, id=len(arr) + 1)
            if a['kind'] == 'start':
                io.track(p.d['name'])
                info.append(m.ProcessStarted(**p.d))
            elif a['kind'] == 'exit':
                info.append(m.ProcessExited(returncode=a['code'], **p.d))
            else:
                ev = (m.ProcessStdout if a['fd'] == 1 else m.ProcessStderr)(
                    text=enc(a['t']), **p.d)
                ids[id(ev)] = r['id']
                r['ev'] = ev
                io.append(ev)
            r['c'] = now() + 1
            arr.append(r)

    def who(sel):
        return {'all': None, 'action': procs[sel['i'] - 1], 'name': sel['name']}[sel['by']]

    def ask(w):
        t = None if w['forever'] else w['limit'] / 10000
        p = who(w['sel'])
        text = w['txt']
        if w['api'] == 'out':
            f = io.assertWaitFor if w['form'] else io.waitFor
            r = f(expected_output=text, process=p, timeout=t,
                  strict_proc_matching=w['sel']['strict'],
                  stream={1: 'stdout', 2: 'stderr'}[w['fd']])
            return True if w['form'] else r
        if w['api'] == 'start':
            return info.assertWaitForStartup(p, timeout=t) is None
        if w['api'] == 'exit':
            return info.assertWaitForShutdown(p, timeout=t) is None
        proxy = m.tools.ProcessProxy(p, info, io)
        if w['api'] == 'pexit':
            return proxy.wait_for_shutdown(timeout=t)
        return proxy.wait_for_output(
            (lambda o: text in o) if text else None, timeout=t)

    def waiter(w):
        time.sleep(w['d'] / 1000)
        r = dict(w, b=now(), e=-1, got='hang')
        ops.append(r)
        got = classify(m, lambda: ask(w))
        r['e'], r['got'] = now() + 1, got

    def read(p, r):
        r['b'] = now()
        try:
            evs = list(io) if p == 0 else io[procs[p - 1]]
        except KeyError:
            evs = []
        r['e'] = now() + 1
        r['got'] = [ids.get(id(ev), 0) for ev in evs]
        return r

    def reader(w):
        time.sleep(w['d'] / 1000)
        for _ in range(w['n']):
            # (an error while iterating is one)
            for x in info:
                x.process_name
            ops.append(read(w['p'], {'o': 'read', 'p': w['p']}))

    def thread(f, arg, k):
        def body():
            pts = set(case['pause'].get(str(k), []))
            if pts:
                sys.settrace(tracer(pts, case['len'] / 1000))
            try:
                f(*arg)
            except Exception as e:
                ops.append({'o': 'read', 'p': 0, 'b': 0, 'e': 0, 'got': [repr(e)[:200]]})
            finally:
                sys.settrace(None)
        return threading.Thread(target=body, daemon=True)
    ts = [thread(arrivals, (), 0)]
    for k, w in enumerate(case['waits'], 1):
        ts.append(thread(reader if w['o'] == 'reads' else waiter, (w,), k))
    for t in ts:
        t.start()
    end = time.monotonic() + PATIENCE
    for t in ts:
        t.join(max(0, end - time.monotonic()))
    hang = any(t.is_alive() for t in ts)
    for r in ops:
        if r.get('got') == 'hang':
            r['e'] = now()
    for p in range(len(procs) + 1):
        ops.append(read(p, {'o': 'read', 'p': p}))
    last = []
    for p in procs:
        try:
            ev = info[p]
            last.append(['exit', ev.returncode] if isinstance(ev, m.ProcessExited)
                        else ['start', 0])
        except KeyError:
            last.append(['none', 0])
    ops.append({'o': 'info', 'got': last})
    for r in arr:
        r.pop('ev', None)
    return {'procs': case['procs'], 'arr': arr, 'ops': ops}, hang


def run(job, scratch):
    global hangs
    if hangs >= 2:
        return {'not_run': True}
    runs, cases = [], []
    for c in job['cases']:
        done = stall.steady(lambda: one(c), .8)
        if done is None:
            # (the machine stood still all the time)
            continue
        r, h = done
        runs.append(r)
        cases.append(c)
        hangs += h
        if hangs >= 2:
            break
    return {'runs': runs, 'cases': cases, 'hang': hangs > 0}

"""worker.py DRIVER IN.json OUT.json: run every scenario of IN on the code in /repo."""
import importlib
import json
import os
import signal
import sys
import tempfile


class Stuck(BaseException):
    pass


def main():
    driver, inp, outp = sys.argv[1:4]
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path.insert(0, here)
    scratch = os.environ['VP_SCRATCH']
    tempfile.tempdir = scratch
    devnull = os.open(os.devnull, os.O_RDWR)
    keep_err = os.dup(2)
    os.dup2(devnull, 1)
    if not os.environ.get('VP_DEBUG'):
        os.dup2(devnull, 2)
    # (it may be ignored, if the check was started in the background)
    signal.signal(signal.SIGINT, signal.default_int_handler)
    mod = importlib.import_module(driver)
    jobs = json.load(open(inp))
    limit = float(os.environ.get('VP_CASE_LIMIT', '30'))
    out = open(outp, 'w')

    def alarm(*_):
        raise Stuck()
    for job in jobs:
        signal.signal(signal.SIGALRM, alarm)
        signal.setitimer(signal.ITIMER_REAL, limit)
        try:
            r = mod.run(job, scratch)
        except Stuck:
            r = {'stuck': True}
        except Exception as e:
            import traceback
            files = [f.filename for f in traceback.extract_tb(e.__traceback__)]
            if any(f.startswith(os.environ.get('VP_REPO', '/repo') + '/') for f in files):
                # the code under test raised where it never should: an observation, not an error
                r = {'crash': '%s: %s' % (type(e).__name__, e), 'tb': traceback.format_exc()[-1500:]}
            else:
                r = {'harness_error': '%s: %s' % (type(e).__name__, e),
                     'tb': traceback.format_exc()}
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        out.write(json.dumps(r) + '\n')
        out.flush()
    out.close()
    os.dup2(keep_err, 2)
    os._exit(0)


if __name__ == '__main__':
    main()

"""Checks of the smaller specifications: model checking, real runs, trace validation."""
import json
import os
import time

import vp


def all_hangs(out):
    return any(r.get('hang') for r in out)


def calm():
    """Wait until this machine lets the processes go on, for half a minute at most."""
    for _ in range(60):
        worst = 0
        for _ in range(20):
            t = time.monotonic()
            time.sleep(.02)
            worst = max(worst, time.monotonic() - t)
        if worst < .03:
            return


def run(name, prop, res, scratch, driver, jobs, trace_module, traces_of, mc=(), limit=240,
        relevant=None, extra_env=None, case_limit=None, worker_timeout=600, heap='1500m',
        bound=None, split=None, confirm=None):
    """
    mc: (module, cfg, quick?) to model-check; traces_of(job, result) -> trace to validate.

    split(job, result) -> pairs of a case and its trace, when a job makes several runs.
    confirm(case) -> job: where real time matters, a refused case is run again on its own.
    relevant(job, result, diagnosis) may drop a refused trace that concerns another property.
    """
    t0 = time.time()
    tlc_mc = vp.TLC(scratch)
    tlc_mc.k = 500
    started = [(m, c, tlc_mc.start(m, c, workers=4, heap='4g')) for m, c in mc]
    env = dict(extra_env or {})
    if case_limit:
        env['VP_CASE_LIMIT'] = str(case_limit)
    out = vp.run_real(driver, jobs, scratch, extra_env=env, timeout=worker_timeout)
    t1 = time.time()
    traces, idx = [], []
    left_out = 0
    for i, (j, r) in enumerate(zip(jobs, out)):
        if 'not_run' in r:
            left_out += 1
            continue
        if 'stuck' in r or 'crash' in r or 'worker_died' in r:
            res.violation({'input': j, 'observed': r},
                          '%s did not finish normally: %s' % (name, json.dumps(r)[:400]))
            continue
        for case, trace in split(j, r) if split else [(j, traces_of(j, r))]:
            traces.append(trace)
            idx.append(case)
    if left_out > len(jobs) // 2 and not res.violations and not all_hangs(out):
        raise vp.CheckError('%d of %d runs were not made in time' % (left_out, len(jobs)))
    tlc = vp.TLC(scratch)
    bad = vp.validate(tlc, trace_module, traces, scratch, heap=heap)
    unsure, sure, since = 0, 0, time.time()
    for k in sorted(bad)[:40] if confirm else ():
        if sure >= 2 or time.time() - since > 120:
            break
        if any(o.get('k') == 'hang' for o in traces[k]['ops'][-1:]):
            # (it hung twice)
            sure += 1
            continue
        again = []
        for _ in range(2):
            calm()
            d = os.path.join(scratch, 'again%d' % unsure)
            unsure += 1
            os.makedirs(d)
            j = confirm(idx[k])
            r = vp.run_real(driver, [j], d, extra_env=env, timeout=200)[0]
            again += split(j, r) if 'runs' in r else [None]
        redone = [a[1] for a in again if a]
        if None not in again and not vp.validate(tlc, trace_module, redone, scratch, heap=heap):
            del bad[k]
        else:
            sure += 1
    for k, d in sorted(bad.items()):
        ops = traces[k].get('ops', [])
        at = d['position']
        got = ops[at - 1] if 0 < at <= len(ops) else \
            dict({x: v for x, v in traces[k].items() if x in ('code', 'err', 'status')},
                 k='end of the recorded run')
        res.violation({'input': idx[k], 'observed': traces[k], 'at': at,
                       'specification_allows': d['specification_allows']},
                      '%s: recorded %s where the specification allows %s'
                      % (name, json.dumps(got)[:350],
                         '; '.join(d['specification_allows'])[:350]))
    cut = []
    for m, c, h in started:
        r = tlc_mc.finish(h, limit if vp.TIER == 'quick' else 3000)
        if r['timeout'] and 'Error:' not in r['out']:
            cut.append(c or m)
        elif not r['ok']:
            raise vp.CheckError('%s does not hold:\n%s' % (m, r['out'][-4000:]))
    cov = res.cov
    cov['states'] = cov.get('states', 0) + tlc_mc.distinct + tlc.distinct
    cov['transitions'] = cov.get('transitions', 0) + tlc_mc.states + tlc.states
    cov['traces_validated_against_impl'] = cov.get('traces_validated_against_impl', 0) \
        + len(traces)
    cov.setdefault('parts', {})[name] = {
        'real_runs': len(jobs) - left_out, 'left_out': left_out, 'model_states': tlc_mc.distinct, 'trace_states': tlc.distinct,
        'model_checking_cut_short': cut, 'bound': bound,
        'seconds': {'real': round(t1 - t0, 1), 'total': round(time.time() - t0, 1)}}
    cov.setdefault('samples', []).extend(
        {'input': idx[k], 'observed': traces[k]}
        for k in {len(traces) // 2, len(traces) - 1} if 0 <= k < len(traces))
    return out

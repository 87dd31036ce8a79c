"""Which machinery decides which property."""
import sys
import traceback

import vp

ENGINE = ('TLA+ spec Engine model-checked with TLC; real runs replayed against it (trace validation)',
          'Every behaviour of the specification is checked for the bounded program family; the '
          'real launch engine runs each family program and random larger ones on a deterministic '
          'virtual-time loop and every recorded run must be a behaviour of the specification. '
          'Trusted: TLC, the harness (program builder, observation points), bounds in the evidence.')

CLAIMS = {p: ENGINE for p in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10',
                              'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C27', 'C28')}
CLAIMS['C26'] = (
    'TLA+ spec LogRoute model-checked with TLC; recorded destinations checked against it',
    'Every sequence of operations up to the bound satisfies the routing table in the '
    'specification; every option in the documented set, random sequences and whole launch runs '
    'are executed on the real code, and what each destination then contains must be what the '
    'specification says. Trusted: TLC, the harness, the bounds.')
CLAIMS['C19'] = (
    'TLA+ spec Signals model-checked with TLC; recorded manager operations checked against it',
    'The chain of managers is model-checked for every sequence of operations up to the bound; '
    'exhaustive short and random long sequences of entering, leaving, handling, real signals and '
    'loop iterations are run on the real managers and every result must be allowed by the '
    'specification. Trusted: TLC, the harness, delivery of signals by the kernel.')
CLAIMS['C18'] = (
    'TLA+ specs Threads (histories) and ThreadsMC (protocol, with liveness) checked with TLC; '
    'recorded histories of preempted threads checked against Threads',
    'The lock protocol is model-checked with fairness; real threads are preempted at chosen '
    'lines and the recorded calls, returns and processed events must be a history the '
    'specification allows; a call that does not return is one it does not allow. Trusted: TLC, '
    'the harness; preemption points are sampled.')
CLAIMS['C21'] = (
    'TLA+ spec Text (parser and word splitter over characters) model-checked with TLC; every '
    'recorded result of the real front end checked against it',
    'Laws of the specification are checked for every text up to the bound; all short texts and '
    'command lines and random, nested and corrupted long ones are parsed by the real code and each '
    'result must be the one of the specification. Trusted: TLC, the harness, the bounds.')
CLAIMS['C20'] = (
    'TLA+ spec Values (evaluation and typing rules over texts) model-checked with TLC; every '
    'recorded evaluation of the real code checked against it',
    'Laws of the specification are checked for every text and tree up to the bound; all pairs of '
    'representative operands, short texts, and random trees, YAML texts and typed values are '
    'evaluated by the real code and each result must be the one of the specification. Trusted: '
    'TLC, the harness, the bounds; YAML mappings, dates and sexagesimal numbers are left out.')
CLAIMS['C30'] = (
    'TLA+ spec PyTest (phases, launches and outcomes of tests of a module) model-checked with TLC; '
    'recorded runs of pytest with the real plugin checked against it',
    'All orders of small modules are model-checked, with termination; random test modules are run '
    'by pytest with the plugin, and the recorded order of items, launches, bodies and outcomes '
    'must be one the specification allows; a run that hangs is one it does not allow. Trusted: '
    'TLC, pytest, the harness, the bounds; one fixture per module unless of function scope.')
CLAIMS['C25'] = (
    'TLA+ spec Match (search, patterns, filters, selection over chunked output) model-checked with '
    'TLC; every recorded answer of the real assertions checked against it',
    'Laws of the specification are checked for every text up to the bound, split anywhere; all '
    'short texts and random histories of several processes, cut anywhere, are given to the real '
    'assertions and each answer must be the one of the specification. Trusted: TLC, the harness, '
    'the bounds; patterns are sequences of classes with ?, * and +.')
CLAIMS['C23'] = (
    'TLA+ specs Waits (answers over timed histories) and WaitsMC (protocol, with liveness) checked '
    'with TLC; recorded waits of real threads checked against Waits',
    'The lock and condition protocol is model-checked with fairness; real threads wait and read '
    'while output and exits arrive, paused at chosen lines, and each answer with its instants must '
    'be one the specification allows; a wait that does not return is one it does not allow. '
    'Trusted: TLC, the harness; schedules are sampled; a release may take up to 2.5 s.')
CLAIMS['C29'] = (
    'TLA+ specs Waits and WaitsMC checked with TLC; recorded waits during real runs checked '
    'against Waits',
    'Real launch runs with real processes; waits in threads and coroutines begin before, during '
    'and after what they wait for, and each answer with its instants must be one the '
    'specification allows; a handler left behind is one it does not allow. Trusted: TLC, the '
    'harness; schedules are sampled; a release may take up to 2.5 s.')
CLAIMS['C24'] = (
    'TLA+ specs Runner and RunnerMC (runner, launch and tests, with liveness) checked with TLC; '
    'recorded launch tests checked against Runner',
    'Every order of readiness, closing, deaths and tests is model-checked for small shapes; launch '
    'tests with random readiness, deaths, errors, outcomes and parameters are run through the '
    'launch_test command, and what was seen of them, the exit code and the report must be a '
    'behaviour of the specification. Trusted: TLC, the harness; real time, with a margin of '
    '150 ms within which both answers are allowed.')
CLAIMS['C22'] = (
    'TLA+ spec Engine (meaning) and Frontend (validity) checked with TLC; runs of launch files and '
    'documents loaded by the real front ends checked against them',
    'Programs of the Engine specification are written as XML and YAML files, loaded and run, and '
    'every recorded run must be a behaviour of the specification, as for the Python API. Whether '
    'a document is accepted must be what the specification Frontend says, for every action and '
    'attribute, all single changes and random trees. Trusted: TLC, the harness (which writes the '
    'files), the bounds.')
NOT_CLAIMED = {}


def parts(prop):
    import engine_checks
    out = []
    if prop in engine_checks.PLAN:
        out.append(engine_checks.run_engine)
    if prop == 'C26':
        import log_checks
        out.append(log_checks.run_log)
    if prop == 'C19':
        import signal_checks
        out.append(signal_checks.run_signals)
    if prop == 'C18':
        import thread_checks
        out.append(thread_checks.run_threads)
    if prop == 'C21':
        import text_checks
        out.append(text_checks.run_text)
    if prop == 'C22':
        import frontend_checks
        out.append(frontend_checks.run_frontend)
    if prop == 'C20':
        import value_checks
        out.append(value_checks.run_values)
    if prop == 'C25':
        import match_checks
        out.append(match_checks.run_match)
    if prop == 'C23':
        import wait_checks
        out.append(wait_checks.run_waits)
    if prop == 'C29':
        import wait_checks
        out.append(wait_checks.run_ptwaits)
    if prop == 'C30':
        import pytest_checks
        out.append(pytest_checks.run_pytest)
    if prop == 'C24':
        import runner_checks
        out.append(runner_checks.run_runner)
    return out


def main(argv):
    prop = argv[0]
    if '--thorough' in argv:
        vp.TIER = 'thorough'
    if '--quick' in argv:
        vp.TIER = 'quick'
    res = vp.Result(prop)
    try:
        with vp.Scratch() as scratch:
            ps = parts(prop)
            if not ps:
                raise vp.CheckError('no check for ' + prop)
            for f in ps:
                f(prop, res, scratch)
            return res.finish()
    except vp.CheckError as e:
        sys.stderr.write('check machinery failed: %s\n' % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2

"""mkseed.py SEEDS.py [ID...]: build and confirm planted bugs described in SEEDS.py.

SEEDS.py defines SEEDS: {id: dict(prop=, edits=[(file, old, new)], needs=, breaks=, demo=)}.
Each is confirmed in a scratch copy: the patch applies, the stable test passes, the existing launch
tests give the same result, and the demonstration passes without and fails with the change.
"""
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile

OUT = '/verif/seeded'
SH = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
S=$(mktemp -d)
trap 'rm -rf "$S"' EXIT
export PYTHONPATH="$R/launch:$R/launch_xml:$R/launch_yaml:$R/launch_testing:$R/launch_pytest"
export PYTHONDONTWRITEBYTECODE=1 ROS_LOG_DIR="$S/log" HOME="$S" DEMO_REPO="$R" DEMO_DIR="$D"
unset OVERRIDE_LAUNCH_PROCESS_OUTPUT OVERRIDE_LAUNCH_SCREEN_FORMAT OVERRIDE_LAUNCH_LOG_FORMAT
cd "$S"
timeout -k 5 100 /opt/venv/bin/python "$D/demo.py"
'''
HEAD = '''import os
import sys
import types

os.makedirs(os.environ['ROS_LOG_DIR'], exist_ok=True)
# ament_index_python is not available offline; a stand-in with the two functions launch imports
_m = types.ModuleType('ament_index_python')
_p = types.ModuleType('ament_index_python.packages')


class PackageNotFoundError(KeyError):
    pass


def _prefix(name):
    return os.path.join(os.environ['DEMO_REPO'], name)


def _share(name):
    return os.path.join(_prefix(name), 'share', name)


for _x in (_m, _p):
    _x.get_package_prefix = _prefix
    _x.get_package_share_directory = _share
    _x.PackageNotFoundError = PackageNotFoundError
_m.packages = _p
sys.modules['ament_index_python'] = _m
sys.modules['ament_index_python.packages'] = _p

'''


def run(cmd, cwd, env=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout, text=True,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT)


def tests(tree, pk):
    r = run(['bash', '/verif/tools/existing_tests.sh', tree, pk], '/tmp')
    return sorted(set(re.findall(r'^(?:FAILED|ERROR) (\S+)', r.stdout, re.M))), r.stdout


def main():
    seeds = runpy.run_path(sys.argv[1])['SEEDS']
    want = sys.argv[2:] or list(seeds)
    base = {}
    for sid in want:
        s = seeds[sid]
        d = os.path.join(OUT, sid)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        with open(d + '/demo.sh', 'w') as f:
            f.write(SH)
        with open(d + '/demo.py', 'w') as f:
            f.write(HEAD + s['demo'].lstrip('\n'))
        for name, text in s.get('files', {}).items():
            with open(os.path.join(d, name), 'w') as f:
                f.write(text)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                  open(d + '/meta.json', 'w'), indent=1)
        wt = tempfile.mkdtemp(prefix='seedwt')
        ok = []
        try:
            tree = wt + '/repo'
            run(['git', 'clone', '-q', '/repo', tree], '/tmp')
            r0 = run(['bash', d + '/demo.sh'], tree)
            for file, old, new in s['edits']:
                p = os.path.join(tree, file)
                t = open(p).read()
                if t.count(old) != 1:
                    raise SystemExit('%s: %d matches in %s of %r' % (sid, t.count(old), file, old))
                open(p, 'w').write(t.replace(old, new))
            diff = run(['git', 'diff'], tree).stdout
            open(d + '/patch.diff', 'w').write(diff)
            r1 = run(['bash', d + '/demo.sh'], tree)
            ok.append(('demo clean', r0.returncode == 0, r0.stdout))
            ok.append(('demo patched', r1.returncode not in (0,), r1.stdout))
            pk = s['edits'][0][0].split('/')[0]
            if pk not in base:
                base[pk] = tests('/repo', pk)[0]
            bad, out = tests(tree, pk)
            ok.append(('existing tests', bad == base[pk], out))
            m = run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-p',
                     'no:launch_testing', '-p', 'no:launch_pytest', 'test/test_mypy.py'],
                    tree + '/launch')
            ok.append(('mypy', m.returncode == 0, m.stdout))
        finally:
            shutil.rmtree(wt, ignore_errors=True)
        good = all(b for _, b, _ in ok)
        print(sid, 'OK' if good else 'NOT CONFIRMED', 'demo rc %d/%d' % (r0.returncode, r1.returncode),
              r1.stdout.strip().splitlines()[-1:] if good else '')
        if not good:
            for n, b, o in ok:
                if not b:
                    print('   ', n, o[-1500:])
        sys.stdout.flush()


main()

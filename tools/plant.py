#!/opt/venv/bin/python
""" Confirms planted bugs and files them under /verif/seeded/<id>/.

Usage: plant.py FILE...  Each FILE is Python defining BUGS, a list of dicts:
id, property, edits [(file, old, new)], needs, breaks, demo (Python source,
run with the repository as cwd and on its path; exit 0 when all is well).
A bug is kept if it applies, the stable tests pass with it, its demo passes
without it and fails with it, and it changes only original lines.
With --check, each property's quick check is also run against the bug.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

BASE = '32b0bfe'
SEEDED = '/verif/seeded'
DEMO = '''#!/bin/bash
# Run with cwd at the repository. Exit 0: all is well.
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
exec timeout 120 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, text=True,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          **kw)


def tests(tree):
    env = dict(os.environ, PYTHONPATH=tree, PYTHONDONTWRITEBYTECODE='1')
    run = sh('/opt/venv/bin/python -W ignore -m pytest -q -x tests '
             '-p no:cacheprovider 2>&1 | tail -4', tree, env=env)
    return run.stdout


def original(tree, file, old):
    """ Whether the lines removed all stem from the base commit. """
    run = sh('git diff -U0 %s -- %s' % ('HEAD', file), tree).stdout
    blame = sh('git blame -l -s HEAD -- %s' % file, tree).stdout.split('\n')
    late = set(sh('git rev-list %s..HEAD' % BASE, tree).stdout.split())
    bad, removed = [], 0
    for line in run.split('\n'):
        if line.startswith('@@'):
            part = line.split()[1][1:]
            start, _, count = part.partition(',')
            for i in range(int(start), int(start) + int(count or 1)):
                removed += 1
                if blame[i - 1].split()[0].lstrip('^') in late:
                    bad.append(blame[i - 1])
    return removed and not bad, bad


def main():
    check = '--check' in sys.argv
    for name in sys.argv[1:]:
        if name.startswith('--'):
            continue
        space = {}
        exec(compile(open(name).read(), name, 'exec'), space)
        for bug in space['BUGS']:
            plant(bug, check)


def plant(bug, check):
    tree = tempfile.mkdtemp(prefix='plant-')
    try:
        sh('cp -a /repo/. %s' % tree, '/')
        home = tempfile.mkdtemp(prefix='demo-')
        with open(home + '/demo.py', 'w') as out:
            out.write(bug['demo'].lstrip('\n'))
        with open(home + '/demo.sh', 'w') as out:
            out.write(DEMO)
        os.chmod(home + '/demo.sh', 0o755)
        clean = sh('bash %s/demo.sh' % home, tree)
        for file, old, new in bug['edits']:
            path = os.path.join(tree, file)
            text = open(path).read()
            if text.count(old) != 1:
                print(bug['id'], 'EDIT', text.count(old), 'matches', old)
                return
            with open(path, 'w') as out:
                out.write(text.replace(old, new))
            good, bad = original(tree, file, old)
            if not good:
                print(bug['id'], 'NOT ORIGINAL', bad)
                return
        diff = sh('git diff', tree).stdout
        broken = sh('bash %s/demo.sh' % home, tree)
        suite = tests(tree)
        ok = clean.returncode == 0 and broken.returncode != 0 \
            and '973 passed' in suite
        print(bug['id'], bug['property'], 'clean', clean.returncode,
              'broken', broken.returncode, 'KEEP' if ok else 'REJECT')
        if not ok:
            print('   ', suite.strip().split('\n')[-1])
            if clean.returncode:
                print(clean.stdout[-1500:])
            print(suite[-600:])
            return
        print('    ', broken.stdout.strip().split('\n')[-1][:150])
        dest = os.path.join(SEEDED, bug['id'])
        shutil.rmtree(dest, ignore_errors=True)
        shutil.copytree(home, dest)
        with open(dest + '/patch.diff', 'w') as out:
            out.write(diff)
        with open(dest + '/meta.json', 'w') as out:
            json.dump({'property': bug['property'], 'needs': bug['needs'],
                       'what_it_breaks': bug['breaks']}, out, indent=1)
            out.write('\n')
        if check:
            env = dict(os.environ, VERIF_REPO=tree, VERIF_SEED='1',
                       VERIF_EVIDENCE_DIR=home, VERIF_REPLAY_DIR=home)
            run = sh('/opt/venv/bin/python -W ignore run.py %s --tier quick'
                     % bug['property'], '/verif', env=env)
            print('     check:', run.returncode,
                  run.stdout.strip().split('\n')[-1][:150])
    finally:
        shutil.rmtree(tree, ignore_errors=True)


main()

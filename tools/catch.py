#!/usr/bin/env python3
"""catch.py [PREFIX...]: plant each seeded bug in a copy, run the check of its property, and tell whether it is caught.

Not a check: no check reads the folder of seeded bugs.  With --all, every check is run on every bug.
"""
import json
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PLACE = os.environ.get('PLACE', '/tmp/catch')
REPO, COPY = PLACE + '/repo', PLACE + '/verif'


def substitute(path, old, new):
    text = open(path).read()
    assert old in text
    open(path, 'w').write(text.replace(old, new))


def prepare():
    shutil.rmtree(PLACE, ignore_errors=True)
    os.makedirs(PLACE)
    subprocess.run(['git', 'clone', '-q', '/repo', REPO], check=True)
    shutil.copytree(HERE, COPY, ignore=shutil.ignore_patterns('.git', '.work', 'seeded', 'states'))
    substitute(COPY + '/tools/vp.py', "REPO = '/repo'", "REPO = '%s'" % REPO)
    substitute(COPY + '/harness/Cargo.toml', '"/repo"', '"%s"' % REPO)


def main(arguments):
    everything = '--all' in arguments
    prefixes = [name for name in arguments if name != '--all']
    seeded = os.path.join(HERE, 'seeded')
    names = [name for name in sorted(os.listdir(seeded)) if not prefixes or any(name.startswith(p) for p in prefixes)]
    patches = {name: (json.load(open(os.path.join(seeded, name, 'meta.json')))['property'],
                      open(os.path.join(seeded, name, 'patch.diff')).read()) for name in names}
    prepare()
    for name, (wanted, patch) in patches.items():
        subprocess.run(['git', '-C', REPO, 'apply', '-'], input=patch, text=True, check=True)
        for property in ['C%02d' % i for i in range(1, 24)] if everything else [wanted]:
            start = time.time()
            done = subprocess.run(['python3', 'tools/check.py', property], cwd=COPY, text=True, capture_output=True)
            lines = [line for line in done.stdout.splitlines() if line.startswith('VIOLATION')]
            caught = done.returncode == 1 and any('property=' + property in line for line in lines)
            print('%-24s %s %s exit %d %4ds' % (name, property, 'caught' if caught else 'missed', done.returncode,
                                                time.time() - start), flush=True)
            if done.returncode not in (0, 1):
                print(done.stdout[-1000:], done.stderr[-2000:])
        subprocess.run(['git', '-C', REPO, 'checkout', '-q', '--', '.'], check=True)
    shutil.rmtree(PLACE, ignore_errors=True)


if __name__ == '__main__':
    main(sys.argv[1:])

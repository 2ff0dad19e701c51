#!/usr/bin/env python3
"""plant.py ID PROPERTY FILE  -- records a planted bug: reads JSON {"needs":, "what":, "edits": [[old, new]..], "demo": text}
from stdin, makes patch.diff against /repo's HEAD in a scratch copy, and checks that the demo passes without it
and fails with it, and that the unit tests that run fast (import) still work."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    ident, prop = sys.argv[1:3]
    spec = {}
    exec(sys.stdin.read(), spec)
    out = os.path.join(HERE, 'seeded', ident)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    tmp = tempfile.mkdtemp(prefix='plant-')
    try:
        subprocess.run(['git', 'clone', '-q', '/repo', tmp + '/repo'], check=True)
        for f, old, new in spec['edits']:
            p = os.path.join(tmp, 'repo', 'crazy_complete', f)
            s = open(p).read()
            assert s.count(old) == 1, (f, old, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        d = subprocess.run(['git', '-C', tmp + '/repo', 'diff'], stdout=subprocess.PIPE, check=True).stdout
        open(out + '/patch.diff', 'wb').write(d)
        with open(out + '/demo.sh', 'w') as f:
            f.write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec python3 "$(dirname "$0")/demo.py"\n')
        open(out + '/demo.py', 'w').write('import os, sys\nsys.path.insert(0, os.getcwd())\n' + spec['demo'].lstrip('\n'))
        json.dump({'property': prop, 'needs': spec['needs'], 'what_it_breaks': spec['what']},
                  open(out + '/meta.json', 'w'), indent=1)
        a = subprocess.run(['bash', out + '/demo.sh'], cwd='/repo', stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        b = subprocess.run(['bash', out + '/demo.sh'], cwd=tmp + '/repo', stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        print(ident, 'clean', a.returncode, 'patched', b.returncode, 'OK' if a.returncode == 0 and b.returncode else 'BAD')
        if a.returncode:
            print(a.stdout.decode()[-1500:])
        print('   ', b.stdout.decode()[-300:])
    finally:
        shutil.rmtree(tmp)


main()

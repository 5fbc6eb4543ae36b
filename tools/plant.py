#!/usr/bin/env python3
"""Plant a bug: plant.py SPEC.py   (development tool, not used by any check)

SPEC defines: ID, PROPERTY, EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO (python source, run with cwd /repo).
Confirms in a scratch copy: edits are unique, tests pass, demo 0 without / nonzero with; writes /verif/seeded/ID.
"""
import json, os, runpy, shutil, subprocess, sys, tempfile
spec = runpy.run_path(sys.argv[1])
out = f"/verif/seeded/{spec['ID']}"
w = tempfile.mkdtemp(prefix='plant', dir='/tmp')
try:
    r = w + '/repo'
    subprocess.run(['cp', '-a', '/repo', r], check=True)
    for f, old, new in spec['EDITS']:
        p = f'{r}/src/craterstats/{f}'
        s = open(p, encoding='utf-8', newline='').read()
        if s.count(old) != 1 and '\r\n' in s:
            old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, 'w', encoding='utf-8', newline='').write(s.replace(old, new))
    diff = subprocess.run(['git', '-C', r, 'diff', '--', 'src'], capture_output=True, text=True, check=True).stdout
    os.makedirs(out, exist_ok=True)
    open(out + '/patch.diff', 'w', newline='').write(diff)
    open(out + '/demo.py', 'w').write(spec['DEMO'])
    open(out + '/demo.sh', 'w').write('''#!/bin/bash
# exit 0: behaviour as stated; nonzero: broken.  Run with cwd = repository root.
here="$(cd "$(dirname "$0")" && pwd)"
d="$(mktemp -d)"
trap 'rm -rf "$d"' EXIT
export PYTHONPATH="$PWD/src" MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 MPLCONFIGDIR="$d/mpl"
mkdir -p "$d/mpl" "$d/work"
cd "$d/work" || exit 2
/opt/venv/bin/python "$here/demo.py"
''')
    os.chmod(out + '/demo.sh', 0o755)
    json.dump(dict(property=spec['PROPERTY'], needs=spec['NEEDS'], what_it_breaks=spec['BREAKS']),
              open(out + '/meta.json', 'w'), indent=1)
    a = subprocess.run(['bash', out + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
    b = subprocess.run(['bash', out + '/demo.sh'], cwd=r, capture_output=True, text=True)
    print('demo unpatched', a.returncode, a.stdout[-300:], a.stderr[-600:])
    print('demo patched  ', b.returncode, b.stdout[-300:], b.stderr[-300:])
    env = dict(os.environ, PYTHONPATH=r + '/src', MPLBACKEND='Agg')
    t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', r + '/src/craterstats/tests'],
                       cwd=r, env=env, capture_output=True, text=True)
    print(t.stdout.strip().splitlines()[-1])
    res = {}
    for pid in [spec['PROPERTY']] + list(spec.get('ALSO', [])):
        c = subprocess.run(['/verif/run.sh', pid], cwd='/verif', capture_output=True, text=True,
                           env=dict(os.environ, VMON_REPO=r, VERIF_SEED='1', VERIF_TIER='quick', MPLBACKEND='Agg'))
        print(pid, 'check exit', c.returncode, [l[:220] for l in c.stdout.splitlines() if 'mechanism=' in l or 'INCONCL' in l][:5])
    ok = a.returncode == 0 and b.returncode != 0 and ' passed' in t.stdout and 'failed' not in t.stdout.strip().splitlines()[-1]
    print('PLANT', 'OK' if ok else 'BAD', spec['ID'])
finally:
    shutil.rmtree(w)

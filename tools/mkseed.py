#!/usr/bin/env python3
"""mkseed.py SPEC.py: makes planted bugs. SPEC.py defines SEEDS: list of dicts
id, property, needs, breaks, file, old, new (or edits: [(file, old, new)]), demo (Go test source), race."""
import sys, os, subprocess, json, runpy, tempfile, shutil
tm = open('/verif/tools/demo.sh.tmpl').read()
for s in runpy.run_path(sys.argv[1])['SEEDS']:
    if len(sys.argv) > 2 and s['id'] not in sys.argv[2:]:
        continue
    d = '/verif/seeded/' + s['id']
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='/tmp/mkseed')
    subprocess.run(['git', 'clone', '-q', '/repo', tmp + '/repo'], check=True)
    for f, old, new in s.get('edits') or [(s['file'], s['old'], s['new'])]:
        p = tmp + '/repo/' + f
        t = open(p).read()
        if t.count(old) != 1:
            sys.exit(f"{s['id']}: {f}: text occurs {t.count(old)} times")
        open(p, 'w').write(t.replace(old, new))
    diff = subprocess.run(['git', '-C', tmp + '/repo', 'diff'], capture_output=True, text=True, check=True).stdout
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo_test.go', 'w').write(s['demo'])
    open(d + '/demo.sh', 'w').write(tm.replace(' RACE', ' -race' if s.get('race') else ''))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    shutil.rmtree(tmp)
    print('made', s['id'])

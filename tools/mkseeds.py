#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ for the planted changes described in seeds_*.py next to this file.

usage: mkseeds.py [ID...]     (scratch copies below /tmp/mkseeds; /repo is only read)"""
import glob, json, os, shutil, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
seeds = {}
for f in sorted(glob.glob(here + '/seeds_*.py')):
    ns = {}
    exec(compile(open(f).read(), f, 'exec'), ns)
    for k, v in ns['SEEDS'].items():
        assert k not in seeds, k
        seeds[k] = v
for sid in sys.argv[1:] or seeds:
    s = seeds[sid]
    w = '/tmp/mkseeds/' + sid
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs('/tmp/mkseeds', exist_ok=True)
    subprocess.check_call(['git', 'clone', '-q', '/repo', w])
    for f, old, new in s['edits']:
        p = w + '/' + f
        t = open(p).read()
        assert t.count(old) == 1, (sid, f, t.count(old), old)
        open(p, 'w').write(t.replace(old, new))
    subprocess.check_call(['gofmt', '-l', '-w'] + [w + '/' + f for f, _, _ in s['edits']], stdout=subprocess.DEVNULL)
    diff = subprocess.check_output(['git', '-C', w, 'diff'], text=True)
    d = '/verif/seeded/' + sid
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + '/patch.diff', 'w').write(diff)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
              open(d + '/meta.json', 'w'), indent=1)
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n. "$(dirname "$0")/lib.sh"\n' + s['demo'].strip() + '\n')
    os.chmod(d + '/demo.sh', 0o755)
    for f in ['lib.sh', 'main.go.txt', 'types.go.txt']:
        shutil.copy(here + '/seedlib/' + f, d)
    for name, text in s.get('files', {}).items():
        open(d + '/' + name, 'w').write(text)
    shutil.rmtree(w)
    print(sid, diff.count('\n'), 'lines')

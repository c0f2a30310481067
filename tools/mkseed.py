# mkseed.py ID PROP FILE <<< json {old,new,needs,breaks}: writes seeded/ID/{patch.diff,meta.json}; demo.cpp/demo.sh are written by hand
import json, os, subprocess, sys, tempfile
def mk(id, prop, edits, needs, breaks, demo, flags='-O1 -g', variant='real', run='timeout 100 "$tmp/d"'):
    d = '/verif/seeded/' + id
    os.makedirs(d, exist_ok=True)
    diff = ''
    files = {}
    for f, old, new in edits:
        s = files.get(f) or open('/repo/' + f).read()
        assert s.count(old) == 1, (id, f, s.count(old))
        files[f] = s.replace(old, new)
    for f, s in files.items():
        with tempfile.NamedTemporaryFile('w', delete=False) as t:
            t.write(s)
        p = subprocess.run(['diff', '-u', '--label', 'a/' + f, '--label', 'b/' + f, '/repo/' + f, t.name], capture_output=True, text=True)
        diff += p.stdout
        os.unlink(t.name)
    open(d + '/patch.diff', 'w').write(diff)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    if demo:
        open(d + '/demo.cpp', 'w').write(demo)
        open(d + '/common.sh', 'w').write(open('/verif/tools/demo_common.sh').read())
        open(d + '/demo.sh', 'w').write('#!/bin/bash\n. "$(cd "$(dirname "$0")" && pwd)/common.sh"\nbuild "$tmp/d" %s %s\n%s\n' % (variant, flags, run))

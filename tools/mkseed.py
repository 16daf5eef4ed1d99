"""mkseed.py SPECFILE : SPECFILE is python defining ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO_C (C source) or DEMO_SH, LIB ('shared'|'static')"""
import sys, os, json, subprocess, shutil
W = '/tmp/seedgen'
def make(ID, PROP, NEEDS, BREAKS, EDITS, DEMO, LIB='shared', EXT='c', FLAGS=''):
    d = '/verif/seeded/' + ID
    os.makedirs(d, exist_ok=True)
    if not os.path.isdir(W):
        subprocess.check_call(['git', 'clone', '-q', '/repo', W])
    subprocess.check_call('git -C %s fetch -q /repo HEAD && git -C %s checkout -q -f FETCH_HEAD' % (W, W), shell=True)
    for f, old, new in EDITS:
        p = os.path.join(W, f); s = open(p).read()
        assert s.count(old) == 1, (ID, f, s.count(old))
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.check_output(['git', '-C', W, 'diff']).decode()
    subprocess.check_call(['git', '-C', W, 'checkout', '-q', '-f', '.'])
    open(d + '/patch.diff', 'w').write(diff)
    json.dump({'property': PROP, 'needs': NEEDS, 'what_it_breaks': BREAKS}, open(d + '/meta.json', 'w'), indent=1)
    open(d + '/demo.' + EXT, 'w').write(DEMO)
    cc = 'gcc' if EXT == 'c' else 'g++'
    inc = '-I/repo/include ' + ' '.join('-I/repo/src' + x for x in ('', '/utils', '/base_alloc', '/ctl', '/provider', '/pool', '/critnib', '/ravl', '/coarse', '/memspaces', '/memtargets'))
    if LIB == 'shared':
        link = '-L/repo/_build/shared/lib -lumf -Wl,-rpath,/repo/_build/shared/lib -lpthread'
    elif LIB == 'static':
        link = '/repo/_build/static/lib/libumf.a /repo/_build/static/lib/libcoarse.a $(pkg-config --libs hwloc 2>/dev/null || echo -lhwloc) -ldl -lpthread -lrt -lm'
    else:
        link = LIB
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d)
trap 'rm -r "$out"' EXIT
cd "$out"
%s -g -D_GNU_SOURCE -DUMF_VERSION=0.11.0 %s %s "$here/demo.%s" -o "$out/demo" %s
set +e
timeout 120 "$out/demo"
rc=$?
echo "rc=$rc"
exit $rc
''' % (cc, FLAGS, inc, EXT, link))
    print(ID, len(diff))

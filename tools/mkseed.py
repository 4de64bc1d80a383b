"""mkseed.py <file.seed>...: build /verif/seeded/<id>/ from a seed description.

A seed description is a Python file defining: id, property, needs, breaks, edits=[(path, old, new)], demo (C/C++ source, or None),
sh (demo.sh body, optional), libs (optional)."""
import json, os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# exit 0: behaves as the property says; nonzero: broken
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 99
trap 'rm -rf "$tmp"' EXIT
B=$PWD/_build
%(cc)s -O1 -g -w -I$B/libipt/include -I$B/sideband/include -Ipevent/include -Iinclude %(cflags)s "$here/%(src)s" -o "$tmp/demo" -L$B/lib %(libs)s -Wl,-rpath,$B/lib || exit 98
cd "$tmp" && ./demo
'''
def build(f):
    g = {}
    exec(open(f).read(), g)
    d = os.path.join(V, 'seeded', g['id'])
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    w = tempfile.mkdtemp(prefix='mkseed.')
    try:
        subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', w + '/r', 'HEAD'])
        for p, old, new in g['edits']:
            fn = os.path.join(w, 'r', p); s = open(fn).read()
            assert s.count(old) == 1, (g['id'], p, s.count(old))
            open(fn, 'w').write(s.replace(old, new))
        diff = subprocess.check_output(['git', '-C', w + '/r', 'diff'])
        open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
    finally:
        subprocess.call(['git', '-C', '/repo', 'worktree', 'remove', '--force', w + '/r'])
        shutil.rmtree(w, ignore_errors=True)
    cpp = g.get('cpp')
    src = 'demo.cpp' if cpp else 'demo.c'
    if g.get('demo'): open(os.path.join(d, src), 'w').write(g['demo'].lstrip('\n'))
    sh = g.get('sh') or SH % dict(cc='g++' if cpp else 'gcc', src=src, libs=g.get('libs', '-lipt'), cflags=g.get('cflags', ''))
    if 'd.h' in (g.get('demo') or ''): shutil.copy(os.path.join(V, 'tools', 'seeds', 'd.h'), d)
    for n, t in (g.get('files') or {}).items(): open(os.path.join(d, n), 'w').write(t)
    open(os.path.join(d, 'demo.sh'), 'w').write(sh); os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump(dict(property=g['property'], needs=g['needs'], what_it_breaks=g['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    print(g['id'], len(diff), 'bytes')
for f in sys.argv[1:]: build(f)

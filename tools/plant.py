#!/usr/bin/env python3
"""plant.py SPEC.py: turn a planted bug description into seeded/<id>/ and confirm it.

SPEC.py defines: id, prop, needs, breaks, edits = [(file, old, new[, count])], and
pkg + test (an in-package Go test, run through an overlay), or demo (a shell script).
Works on a scratch copy of /repo under /tmp.
"""
import json, os, runpy, shutil, subprocess, sys, tempfile
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GO_DEMO = '''#!/bin/bash
# Runs demo_test.go inside the package %(pkg)s; cwd is the repository.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh 2>/dev/null
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%%s":"%%s"}}' "$PWD/%(pkg)s/zz_demo_test.go" "$here/demo_test.go" > "$tmp/o.json"
cd %(pkg)s || exit 2
TMPDIR="$tmp" GOFLAGS=-mod=mod GOPROXY=off ${GO:-go} test -vet=off -count=1 -timeout 120s -overlay "$tmp/o.json" -run '^TestDemo' . 
'''
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main(spec):
    s = runpy.run_path(spec)
    d = os.path.join(root, 'seeded', s['id'])
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    tmp = tempfile.mkdtemp(prefix='plant')
    ok = True
    try:
        repo = tmp + '/repo'
        sh('cp -a /repo %s' % repo)
        for e in s['edits']:
            p = os.path.join(repo, e[0]); t = open(p).read()
            n = e[3] if len(e) > 3 else 1
            assert t.count(e[1]) == n, (e[0], e[1], t.count(e[1]))
            open(p, 'w').write(t.replace(e[1], e[2]))
        diff = sh('git -C %s diff' % repo).stdout
        open(d + '/patch.diff', 'w').write(diff)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        if 'test' in s:
            open(d + '/demo_test.go', 'w').write(s['test'])
            open(d + '/demo.sh', 'w').write(GO_DEMO % s)
        else:
            open(d + '/demo.sh', 'w').write(s['demo'])
            for n, x in s.get('files', {}).items():
                open(os.path.join(d, n), 'w').write(x)
        os.chmod(d + '/demo.sh', 0o755)
        # build and tests of the copy
        r = sh('cd %s/SmartCache/sim && CGO_ENABLED=0 GOPROXY=off go build ./... ' % repo)
        if r.returncode: ok = False; print('BUILD', r.stdout)
        r = sh('bash %s' % (d + '/demo.sh'), cwd='/repo')
        if r.returncode: ok = False; print('DEMO fails on the unchanged tree\n', r.stdout[-3000:])
        r = sh('bash %s' % (d + '/demo.sh'), cwd=repo)
        if not r.returncode: ok = False; print('DEMO passes with the patch\n', r.stdout[-3000:])
        elif '-v' in sys.argv: print(r.stdout[-1500:])
        r = sh('sed s#/repo#%s#g /opt/vp/test.sh > %s/t.sh; bash %s/t.sh %s/out.json' % (repo, tmp, tmp, tmp))
        base = json.load(open('/opt/vp/BASELINE.json'))
        out = json.load(open(tmp + '/out.json'))
        print('tests', json.dumps(out)[:0], failing(base, out))
        r = sh('./check.sh %s' % s['prop'], cwd=root, env=dict(os.environ, VERIF_REPO=repo))
        print('CHECK', r.returncode, r.stdout[:600])
        if '-a' in sys.argv:
            r = sh('/tmp/sc check all', cwd=root, env=dict(os.environ, VERIF_REPO=repo, VERIF_DIR='/tmp/plant'))
            print(sh("echo").stdout, *sorted(set(l.split()[1] for l in r.stdout.splitlines() if l.startswith('VIOLATION'))))
    finally:
        shutil.rmtree(tmp)
    print(s['id'], 'OK' if ok else 'BROKEN')
def names(x, want):
    r = set()
    if isinstance(x, dict):
        for k, v in x.items():
            if v == want: r.add(k)
            elif isinstance(v, list) and k.startswith(want): r |= set(map(str, v))
            else: r |= names(v, want)
    return r
def failing(base, out):
    b = set(base.get('stable_pass') or base.get('passed') or base.get('stable') or names(base, 'pass'))
    o = set(out.get('passed') or names(out, 'pass'))
    return 'stable %d, lost: %s' % (len(b), sorted(b - o))
main([a for a in sys.argv[1:] if not a.startswith('-')][0])

#!/usr/bin/env python3
"""plant.py SPEC.py [ID...]: makes and verifies planted bugs from a spec file.

The spec defines BUGS = [dict(id, property, needs, what, edits=[(file, old, new)], demo=Go test source)].
Each bug is kept as seeded/<id>/ only if the patch applies, builds, passes the stable tests, and
the demo passes without and fails with it."""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.environ.get('PLANT_OUT', '/verif')
DEMO = '''#!/bin/bash
# runs a test of package radix that lies beside this script; cwd is the repository
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d) || exit 3
trap 'rm -f "$tmp/overlay.json"; rmdir "$tmp"' EXIT
printf '{"Replace": {"%s/zz_demo_test.go": "%s/demo_test.go.txt"}}' "$PWD" "$here" > "$tmp/overlay.json"
timeout 280 go test -vet=off -overlay "$tmp/overlay.json" -run '^TestDemo$' -count=1 -timeout 270s .
'''
def sh(cmd, cwd, timeout=400):
    p = subprocess.Popen(['timeout', '-k', '5', str(timeout), 'bash', '-c', cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    o, _ = p.communicate()
    return p.returncode, o
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:]
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for b in ns['BUGS']:
        if want and b['id'] not in want:
            continue
        d = tempfile.mkdtemp(prefix='plant')
        w = d + '/repo'
        subprocess.check_call(['git', 'clone', '-q', '/repo', w])
        try:
            print(b['id'], check(b, w, stable), flush=True)
        finally:
            shutil.rmtree(w)
            os.rmdir(d)
def check(b, w, stable):
    out = os.path.join(ROOT, 'seeded', b['id'])
    os.makedirs(out, exist_ok=True)
    open(out + '/demo.sh', 'w').write(DEMO.replace('go test ', 'go test -race ') if b.get('race') else DEMO)
    os.chmod(out + '/demo.sh', 0o755)
    open(out + '/demo_test.go.txt', 'w').write(b['demo'])
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['what']}, open(out + '/meta.json', 'w'), indent=1)
    def bad(msg):
        shutil.rmtree(out)
        return 'REJECTED: ' + msg
    env = '. /opt/vp/env.sh; '
    n = b.get('runs', 3)
    for i in range(n):
        rc, o = sh(out + '/demo.sh', w)
        if rc != 0:
            return bad('demo fails without the change\n' + o[-1500:])
    for f, old, new in b['edits']:
        p = w + '/' + f
        s = open(p).read()
        if s.count(old) != 1:
            return bad('%d matches of %r in %s' % (s.count(old), old, f))
        open(p, 'w').write(s.replace(old, new))
    rc, diff = sh('gofmt -l . ; git diff', w)
    # all removed lines must be original
    rc, orig = sh('git rev-list --max-parents=0 HEAD', w)
    open(out + '/patch.diff', 'w').write(sh('git diff', w)[1])
    touched = False
    for f in set(e[0] for e in b['edits']):
        base = sh('git show %s:%s' % (orig.strip(), f), w)[1]
        for l in sh('git diff -U0 ' + f, w)[1].splitlines():
            if l.startswith('-') and not l.startswith('---') and l[1:].strip() and l[1:] in base:
                touched = True
    if not touched:
        return bad('no original line changed')
    rc, o = sh(env + 'go build ./...', w)
    if rc != 0:
        return bad('does not build\n' + o)
    rc, o = sh(env + 'go test -json -vet=off -count=1 -timeout 3m ./...', w)
    ok = set()
    for l in o.splitlines():
        try:
            e = json.loads(l)
        except ValueError:
            continue
        if e.get('Action') == 'pass' and 'Test' in e:
            ok.add(e['Package'] + '/' + e['Test'])
    if stable - ok:
        return bad('tests fail: %s' % sorted(stable - ok))
    for i in range(n):
        rc, o = sh(out + '/demo.sh', w)
        if rc == 0:
            return bad('demo passes with the change (run %d)' % i)
    return 'kept; demo says: ' + ' | '.join(l.strip() for l in o.splitlines() if 'zz_demo' in l or 'panic:' in l)[:160]
main()

#!/usr/bin/env python3
"""seed.py DIR: DIR holds edit.py-less spec seed.json {property, needs, what_it_breaks, edits:[[file, old, new],..]} and demo_test.go;
   confirms the change in a scratch copy of /repo and writes /verif/seeded/<id>/."""
import sys, os, json, subprocess, shutil, re
S = '/tmp/seedsrc'


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


DEMO = '''#!/bin/bash
# exit 0 when the property holds for this history
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
ov=$(mktemp); trap 'rm -f "$ov"' EXIT
echo "{\\"Replace\\": {\\"$repo/zz_demo_test.go\\": \\"$here/demo_test.go\\", \\"$repo/zz_lib_test.go\\": \\"$here/lib_test.go\\"}}" > "$ov"
go test %s-overlay "$ov" -vet=off -count=1 -timeout 120s -run '^TestDemo' . 
'''


def make(id, prop, needs, breaks, edits, demo, race=False):
    d = '/tmp/seed_' + id
    sh('rm -rf ' + d)
    sh('cp -a /repo ' + d)
    out = '/verif/seeded/' + id
    try:
        for f, old, new in edits:
            p = d + '/' + f
            s = open(p).read()
            if s.count(old) != 1:
                print(id, 'NOT UNIQUE', s.count(old), f, old)
                return False
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git -C %s diff' % d).stdout
        # the changed lines are the original repository's
        for f, old, new in edits:
            pass
        base = '1ee6d84'
        bl = {}
        for m in re.finditer(r'^--- a/(\S+)\n\+\+\+ .*\n((?:.*\n)*?)(?=diff --git|\Z)', diff, re.M):
            f = m.group(1)
            orig = sh('git -C /repo show %s:%s' % (base, f)).stdout.split('\n')
            for ln in m.group(2).split('\n'):
                if ln.startswith('-') and ln[1:].strip() and ln[1:] not in orig:
                    print(id, 'line is not of the original repository:', ln)
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(diff)
        lib = open('/verif/tools/seedlib_test.go').read()
        open(out + '/lib_test.go', 'w').write(lib)
        open(out + '/demo_test.go', 'w').write(demo)
        open(out + '/demo.sh', 'w').write(DEMO % ('-race ' if race else ''))
        os.chmod(out + '/demo.sh', 0o755)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(out + '/meta.json', 'w'), indent=1)
        b = sh('. /opt/vp/env.sh; cd %s && go build ./... && go vet . 2>&1 | head -3; go test -count=1 . ' % d, executable='/bin/bash')
        if 'ok' not in b.stdout:
            print(id, 'TESTS', b.stdout[-1500:])
            return False
        r1 = sh('cd /repo && timeout 280 bash %s/demo.sh' % out)
        r2 = sh('cd %s && timeout 280 bash %s/demo.sh' % (d, out))
        ok = r1.returncode == 0 and r2.returncode != 0 and 'build failed' not in r2.stdout
        print(id, 'clean', r1.returncode, 'patched', r2.returncode, 'OK' if ok else 'BAD')
        if not ok:
            print(r1.stdout[-1500:], '-----\n', r2.stdout[-1500:])
        else:
            print('   ', [x for x in r2.stdout.split('\n') if '_test.go' in x or 'panic' in x or 'RACE' in x][:2])
        return ok
    finally:
        sh('rm -rf ' + d)


if __name__ == '__main__':
    sys.path.insert(0, '/verif/tools')
    import seeds
    for a in sys.argv[1:]:
        s = seeds.SEEDS[a]
        make(a, **s)

#!/usr/bin/env python3
"""seed.py DIR: checks a planted bug (patch.diff, demo.sh, meta.json in DIR) in a scratch copy of /repo.
The copy is bind-free: the build script names /repo, so the patch is applied to /repo itself and undone."""
import sys, subprocess, os, json
R = '/repo'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main():
    for d in sys.argv[1:]:
        d = os.path.abspath(d)
        if sh('git -C /repo status --porcelain').stdout.strip(): sys.exit('repo not clean')
        a = sh('bash %s/demo.sh' % d, cwd=R)
        print(os.path.basename(d), 'clean demo:', a.returncode, a.stdout[-300:] if a.returncode else '')
        p = sh('git -C /repo apply %s/patch.diff' % d)
        if p.returncode: print('  patch does not apply', p.stdout); continue
        try:
            b = sh('bash /opt/vp/build.sh')
            if b.returncode: print('  build fails', b.stdout[-800:]); continue
            t = sh('bash /opt/vp/test.sh /tmp/seedout.json')
            o = json.load(open('/tmp/seedout.json'))
            st = json.load(open('/opt/vp/BASELINE.json'))['stable']
            passed = o.get('passed', o)
            bad = [s for s in st if s not in passed]
            b = sh('bash %s/demo.sh' % d, cwd=R)
            print('  patched: stable failing', bad, 'demo:', b.returncode, b.stdout[-200:].strip())
            pid = json.load(open(d + '/meta.json'))['property']
            if os.environ.get('CHECK', '1') != '0':
                c = sh('python3-vt /verif/vc/check.py %s' % pid, cwd='/verif')
                print('  check', pid, c.returncode, [l for l in c.stdout.splitlines() if 'VIOLATION' in l or 'obligations' in l])
        finally:
            sh('git -C /repo checkout -- .')
main()

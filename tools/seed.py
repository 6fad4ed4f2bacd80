#!/usr/bin/env python3
"""seed.py validate|check ID... : confirm a planted bug in a scratch copy of /repo (builds, passes the tests, its demo
tells the two trees apart), or run its property's check against the patched copy.  Scratch copy: /tmp/sr."""
import json, os, subprocess, sys, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SR = '/tmp/sr'


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def fresh():
    sh('rsync -a --delete --exclude=.git /repo/ %s/' % SR) if shutil.which('rsync') else None
    if not os.path.exists(SR):
        sh('cp -a /repo %s' % SR)
    else:
        sh('rm -rf %s/include && cp -a /repo/include %s/include' % (SR, SR))


def script(name):
    s = open('/opt/vp/%s.sh' % name).read().replace('/repo', SR).replace('/opt/vp/build.sh', '/tmp/sr_build.sh')
    s = s.replace('python3 /opt/vp/invalidate.py', 'python3 /tmp/sr_invalidate.py')
    open('/tmp/sr_%s.sh' % name, 'w').write(s)
    i = open('/opt/vp/invalidate.py').read().replace('/repo', SR)
    open('/tmp/sr_invalidate.py', 'w').write(i)


def demo(sid):
    d = '/tmp/sr_demo'
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(os.path.join(ROOT, 'seeded', sid), d)
    return sh('bash %s/demo.sh' % d, cwd=SR, timeout=300)


script('build'); script('test')
mode, ids = sys.argv[1], sys.argv[2:]
if ids == ['all']:
    ids = sorted(os.listdir(os.path.join(ROOT, 'seeded')))
base = json.load(open('/opt/vp/BASELINE.json'))['stable']
for sid in ids:
    d = os.path.join(ROOT, 'seeded', sid)
    meta = json.load(open(d + '/meta.json'))
    fresh()
    if mode == 'validate':
        r = demo(sid)
        ok0 = r.returncode == 0
        p = sh('patch -p1 < %s/patch.diff' % d, cwd=SR)
        g = sh('git -C /repo apply --check %s/patch.diff' % d)
        t = sh('bash /tmp/sr_test.sh /tmp/sr_out.json')
        o = json.load(open('/tmp/sr_out.json'))
        miss = [x for x in base if x not in set(o['passed'])]
        r1 = demo(sid)
        print(sid, meta['property'], 'demo-clean', ok0, 'applies', p.returncode == 0 and g.returncode == 0, 'tests-missing', len(miss), 'demo-patched-fails', r1.returncode != 0,
              'GOOD' if ok0 and p.returncode == 0 and g.returncode == 0 and not miss and r1.returncode else 'BAD')
        if not ok0 or not r1.returncode:
            print(r.stdout[-1500:], r.stderr[-1500:], r1.stdout[-500:])
    else:
        sh('patch -p1 < %s/patch.diff' % d, cwd=SR)
        env = dict(os.environ, VC_REPO=SR, VC_BUILD='/tmp/sr_vb', VC_REPLAY='/tmp/sr_vr', VC_EVIDENCE='/tmp/sr_ve')
        r = subprocess.run(['python3-vt', ROOT + '/engine/check.py', meta['property']], capture_output=True, text=True, env=env)
        v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
        print(sid, meta['property'], 'exit', r.returncode, 'CAUGHT' if r.returncode == 1 and v else 'MISSED', v[:1], r.stdout.strip().split('\n')[-1][:150] if not v else '')
    sys.stdout.flush()

"""Try planted changes:  plant.py DIR...

Each DIR has edit.json [[file, old, new], ...], demo.sh (and its files) and
meta.json.  The change is applied to a copy of /repo, built and tested there;
it is kept as /verif/seeded/<name> if the tests pass, the demonstration passes
without the change and fails with it."""
import json, os, shutil, subprocess, sys

W = '/tmp/seed/repo'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, **kw)


def scripts():
    for f in ('build.sh', 'test.sh'):
        s = open('/opt/vp/' + f).read().replace('/repo', W).replace(
            '/opt/vp/build.sh', '/tmp/seed/build.sh').replace(' /opt/vp/build.sh', '/tmp/seed/build.sh')
        open('/tmp/seed/' + f, 'w').write(s)


def main(dirs):
    os.makedirs('/tmp/seed', exist_ok=True)
    scripts()
    if not os.path.exists(W):
        sh('git -C /repo worktree prune; git clone -q /repo ' + W)
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for d in dirs:
        name = os.path.basename(d.rstrip('/'))
        sh('cd %s && git checkout -q -- . && git fetch -q && git reset -q --hard origin/HEAD' % W)
        demo = sh('bash %s/demo.sh' % d, cwd=W, timeout=300)
        if demo.returncode:
            print(name, 'REJECTED: the demonstration fails on the unchanged tree\n', demo.stdout[-1500:])
            continue
        ok = True
        for f, old, new in json.load(open(d + '/edit.json')):
            p = os.path.join(W, 'include/boost/openmethod', f)
            s = open(p).read()
            if s.count(old) != 1:
                print(name, 'REJECTED: %d matches in %s' % (s.count(old), f))
                ok = False
                break
            open(p, 'w').write(s.replace(old, new))
        if not ok:
            continue
        demo = sh('bash %s/demo.sh' % d, cwd=W, timeout=300)
        if demo.returncode == 0:
            print(name, 'REJECTED: the demonstration passes with the change')
            continue
        if demo.returncode == 2:
            print(name, 'NOTE: the demonstration does not compile\n', demo.stdout[-800:])
        t = sh('bash /tmp/seed/test.sh /tmp/seed/out.json')
        try:
            out = json.load(open('/tmp/seed/out.json'))
        except OSError:
            print(name, 'REJECTED: does not build\n', t.stdout[-1500:])
            continue
        passed = set(out.get('passed', []))
        lost = sorted(base - passed)
        if lost:
            print(name, 'REJECTED: %d tests fail: %s' % (len(lost), lost[:5]))
            continue
        dst = '/verif/seeded/' + name
        os.makedirs(dst, exist_ok=True)
        for f in os.listdir(d):
            if f != 'edit.json':
                shutil.copy(os.path.join(d, f), dst)
        open(dst + '/patch.diff', 'w').write(sh('cd %s && git diff' % W).stdout)
        print(name, 'KEPT', demo.stdout.strip()[-200:])
        sys.stdout.flush()


main(sys.argv[1:])

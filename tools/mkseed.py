#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the descriptions in tools/seeds/*.py and
verifies every planted change in a scratch copy: it applies, it builds, the
stable tests pass, the demonstration passes before and fails after.  Then it
runs the property's own check against the changed copy and records whether the
change was caught (tools/seeds/table.json, used for DESIGN.md).

usage: mkseed.py [id ...]        (all without arguments)
       mkseed.py --nocheck ...   (do not run the checks)
"""
import glob, importlib.util, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '3220cb9'
SEEDED = os.path.join(V, 'seeded')
TABLE = os.path.join(V, 'tools', 'seeds', 'table.json')

DEMO_SH = '''#!/bin/bash
# run with cwd = the repository, after its build
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
g++ -std=c++11 %s -w -I"$PWD" -o "$t/demo" "$d/demo.cpp" -lpthread || exit 2
cd "$t" && timeout 100 ./demo
'''


def load():
    seeds = []
    for f in sorted(glob.glob(os.path.join(V, 'tools', 'seeds', '*.py'))):
        spec = importlib.util.spec_from_file_location('s', f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        seeds += m.SEEDS
    ids = [s['id'] for s in seeds]
    assert len(ids) == len(set(ids)), [i for i in ids if ids.count(i) > 1]
    return seeds


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          universal_newlines=True, **kw)


def make(s):
    """the patch against /repo's HEAD"""
    d = os.path.join(SEEDED, s['id'])
    t = tempfile.mkdtemp(prefix='seed_')
    try:
        sh(['git', 'clone', '-q', '/repo', t + '/r'])
        for path, edits in s['edits'].items():
            p = os.path.join(t, 'r', path)
            src = open(p).read()
            for e in edits:
                old, new = e[0], e[1]
                n = src.count(old)
                want = e[2] if len(e) > 2 else 1
                if n != want:
                    return '%s: %d matches (want %d) of:\n%s' % (path, n, want, old)
                src = src.replace(old, new)
            open(p, 'w').write(src)
        diff = sh(['git', '-C', t + '/r', 'diff']).stdout
        if not diff.strip():
            return 'empty patch'
        # at least one removed line is of the original repository
        own = True
        for path in s['edits']:
            base = sh(['git', '-C', '/repo', 'show', BASE + ':' + path]).stdout.splitlines()
            removed = [l[1:] for l in sh(['git', '-C', t + '/r', 'diff', '--', path]).stdout.splitlines()
                       if l.startswith('-') and not l.startswith('---') and l[1:].strip()]
            added = any(l.startswith('+') and not l.startswith('+++') for l in
                        sh(['git', '-C', t + '/r', 'diff', '--', path]).stdout.splitlines())
            if any(l in base for l in removed) or (not removed and added):
                own = False
        if own:
            return 'changes only lines that a fix commit added'
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.cpp', 'w').write(s['demo'].lstrip('\n'))
        for n, txt in s.get('files', {}).items():
            os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)
            open(os.path.join(d, n), 'w').write(txt)
        open(d + '/demo.sh', 'w').write(DEMO_SH % s.get('flags', '-O1'))
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': s['property'], 'needs': s['needs'],
                   'what_it_breaks': s['breaks']},
                  open(d + '/meta.json', 'w'), indent=1)
    finally:
        shutil.rmtree(t)
    return None


def verify(s, check):
    d = os.path.join(SEEDED, s['id'])
    t = tempfile.mkdtemp(prefix='seedv_')
    res = {}
    try:
        r = t + '/repo'
        sh(['cp', '-a', '/repo', r])
        before = sh(['bash', d + '/demo.sh'], cwd=r)
        if before.returncode:
            return {'error': 'demo fails on the unchanged tree:\n' + before.stdout[-500:]}
        a = sh(['git', '-C', r, 'apply', d + '/patch.diff'])
        if a.returncode:
            return {'error': 'does not apply: ' + a.stdout}
        after = sh(['bash', d + '/demo.sh'], cwd=r)
        if after.returncode == 0 or (after.returncode == 2 and not s.get('compile')):
            return {'error': 'demo exits %d with the patch\n%s' % (after.returncode, after.stdout[-500:])}
        res['repo'] = r
        if check:
            env = dict(os.environ, VERIF_REPO=r, VERIF_SEED='1', VERIF_TIER='quick')
            t0 = time.time()
            # a copy of /verif, so that evidence and builds do not collide
            vc = t + '/verif'
            os.makedirs(vc)
            for n in os.listdir(V):
                if n in ('.git', 'build', 'evidence', 'replays', 'seeded'):
                    continue
                sh(['cp', '-a', os.path.join(V, n), vc])
            pr = {s['property']} | set(s.get('also', ()))
            res['caught'] = []
            for p in sorted(pr):
                c = sh([vc + '/run.py', p], cwd=vc, env=env)
                if c.returncode == 1 and 'VIOLATION property=' + p in c.stdout:
                    res['caught'].append(p)
                elif c.returncode not in (0, 1):
                    res['error'] = 'check exit %d\n%s' % (c.returncode, c.stdout[-2000:])
                if p == s['property']:
                    res['time'] = round(time.time() - t0, 1)
        return res
    finally:
        res.pop('repo', None)
        shutil.rmtree(t)


def tests(s):
    """the stable tests with the change: in /repo's own build, one at a time"""
    d = os.path.join(SEEDED, s['id'])
    try:
        a = sh(['git', '-C', '/repo', 'apply', d + '/patch.diff'])
        if a.returncode:
            return 'apply'
        b = sh(['bash', '/opt/vp/build.sh'])
        if b.returncode:
            return 'build:\n' + b.stdout[-1500:]
        out = tempfile.mktemp(suffix='.json')
        sh(['bash', '/opt/vp/test.sh', out])
        got = json.load(open(out))
        os.unlink(out)
        base = json.load(open('/opt/vp/BASELINE.json'))
        stable = base.get('stable') or base.get('passed') or base.get('tests')
        passed = set(got.get('passed', []))
        lost = [x for x in stable if x not in passed]
        return 'tests lost: %s' % lost if lost else None
    finally:
        sh(['git', '-C', '/repo', 'checkout', '--', '.'])


def main():
    args = sys.argv[1:]
    check = '--nocheck' not in args
    dotests = '--notests' not in args
    want = [a for a in args if not a.startswith('--')]
    seeds = [s for s in load() if not want or s['id'] in want
             or any(s['id'].startswith(w) for w in want)]
    table = json.load(open(TABLE)) if os.path.exists(TABLE) else {}
    bad = 0
    ok = []
    for s in seeds:
        e = make(s)
        if e:
            print('MAKE', s['id'], e); bad += 1
            shutil.rmtree(os.path.join(SEEDED, s['id']), ignore_errors=True)
            table.pop(s['id'], None)
            continue
        ok.append(s)
    if dotests:
        good = []
        for s in ok:
            e = tests(s)
            if e:
                print('TESTS', s['id'], e); bad += 1
                shutil.rmtree(os.path.join(SEEDED, s['id']))
                table.pop(s['id'], None)
            else:
                good.append(s)
        sh(['bash', '/opt/vp/build.sh'])
        ok = good
    with ThreadPoolExecutor(3) as ex:
        for s, r in zip(ok, ex.map(lambda s: verify(s, check), ok)):
            if 'error' in r:
                print('VERIFY', s['id'], r['error']); bad += 1
                continue
            if check:
                table[s['id']] = {'property': s['property'], 'caught': r['caught'],
                                  'needs': s['needs'], 'breaks': s['breaks']}
                print('%-28s %s %s %ss' % (s['id'], s['property'],
                      'caught by ' + ' '.join(r['caught']) if r['caught'] else 'MISSED', r.get('time')))
            else:
                print('%-28s ok' % s['id'])
            sys.stdout.flush()
    json.dump(table, open(TABLE, 'w'), indent=1, sort_keys=True)
    return bad


if __name__ == '__main__':
    sys.exit(1 if main() else 0)

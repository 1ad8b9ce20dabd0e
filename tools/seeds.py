#!/usr/bin/env python3
"""Development aid: the planted bugs as edits.  seeds.py write|find|check [ID...]
write: seeded/ID/patch.diff from the edits;  find: inputs on which the edited library answers differently (for the
demonstrations);  check: apply in /repo, build, stable tests, demonstration, checks (names after ':'), undo."""
import json, os, re, shutil, struct, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
H, C, T = 'grisu_exact.h', 'fp_to_chars/fp_to_chars.cpp', 'fp_to_chars.h'
S = {}


def seed(id, prop, needs, breaks, *edits):
    S[id] = dict(prop=prop, needs=needs, breaks=breaks, edits=edits)


exec(open(os.path.join(HERE, 'seed_edits.py')).read())
SD = os.path.join(os.path.dirname(HERE), 'seeded')


def apply(root, id):
    for f, old, new in S[id]['edits']:
        p = os.path.join(root, f)
        s = open(p, newline='').read()
        if '\r\n' in s:
            old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
        if s.count(old) != 1:
            sys.exit('%s: %d matches in %s for %r' % (id, s.count(old), f, old[:60]))
        open(p, 'w', newline='').write(s.replace(old, new))


def scratch(id=None):
    d = '/tmp/plant/%s' % (id or 'base')
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('_build', 'other_files', 'vc2019', 'benchmark_results', 'test_results'))
    if id:
        apply(d, id)
    return d


def write(id):
    d = scratch(id)
    diff = subprocess.run(['git', '-C', d, 'diff', '--no-color', '--', *[e[0] for e in S[id]['edits']]], capture_output=True).stdout
    os.makedirs(os.path.join(SD, id), exist_ok=True)
    open(os.path.join(SD, id, 'patch.diff'), 'wb').write(diff)
    json.dump({'property': S[id]['prop'], 'needs': S[id]['needs'], 'what_it_breaks': S[id]['breaks']}, open(os.path.join(SD, id, 'meta.json'), 'w'), indent=1)
    shutil.rmtree(d)


def find(id, n=2000000):
    import core, checks
    import importlib

    def prog(root, tag):
        core.REPO = root
        cx = core.Ctx('seed', 'quick', 1)
        return cx, cx.lib(tag, parts=('conv', 'text'), main='rowdump.cpp')
    ca, a = prog(scratch(), 'base')
    cb, b = prog(scratch(id), 'mut')
    try:
        gi = ca.tool('geninputs', ['geninputs.cpp'])
        inp = os.path.join(ca.work, 'in.bin')
        core.sh([gi, inp, '7', str(n), core.CORPUS])
        rs = checks.records(inp)
        try:
            x, y = [checks.rowdump(c, p, 'hash', inp, nm, rs) for c, p, nm in ((ca, a, 'a'), (cb, b, 'b'))]
        except checks.Crash as e:
            print(id, e)
            return
        odd = [i for i in range(len(rs)) if x[8 * i:8 * i + 8] != y[8 * i:8 * i + 8]]
        print(id, 'differing', len(odd), 'of', len(rs))
        pick = odd[:: max(1, len(odd) // 8)][:8]
        sub = os.path.join(ca.work, 'sub.bin')
        rs = [rs[i] for i in pick]
        checks.put_records(sub, rs)
        x, y = [checks.rowdump(c, p, 'full', sub, nm, rs) for c, p, nm in ((ca, a, 'a'), (cb, b, 'b'))]
        R = 70 * 48
        for j, (f, bits) in enumerate(rs):
            out = []
            for i in range(70):
                u, v = x[R * j + 16 * i:R * j + 16 * i + 13], y[R * j + 16 * i:R * j + 16 * i + 13]
                if u != v:
                    su, sv = struct.unpack('<QiB', u), struct.unpack('<QiB', v)
                    out.append('%s/%s %dE%d->%dE%d' % (core.MODES[i // 5], core.POLS[i % 5], su[0], su[1], sv[0], sv[1]))
                tu, tv = x[R * j + 1120 + 32 * i:R * j + 1152 + 32 * i], y[R * j + 1120 + 32 * i:R * j + 1152 + 32 * i]
                if tu != tv and u == v:
                    out.append('%s/%s text %r->%r' % (core.MODES[i // 5], core.POLS[i % 5], tu[1:1 + tu[0]], tv[1:1 + tv[0]]))
            print('  %s %#x' % ('df'[1 - f] if 0 else ('double' if f else 'float'), bits), len(out), out[:2], out[-1:])
    finally:
        ca.close()
        cb.close()
        shutil.rmtree('/tmp/plant', ignore_errors=True)


def sh(cmd, t=1000, cwd=None, env=None):
    p = subprocess.run(cmd, capture_output=True, timeout=t, cwd=cwd, env=env)
    return p.returncode, (p.stdout + p.stderr).decode('utf-8', 'replace')


def check(id, props=None):
    d = os.path.join(SD, id)
    clean = sh(['git', '-C', '/repo', 'status', '--porcelain', '--untracked-files=no'])[1]
    if clean.strip():
        sys.exit('/repo is not clean')
    res = {}
    os.makedirs('/tmp/plantdemo', exist_ok=True)
    dd = '/tmp/plantdemo/' + id
    shutil.rmtree(dd, ignore_errors=True)
    shutil.copytree(d, dd, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
    if os.path.exists(dd + '/demo.sh'):
        res['demo clean'] = sh(['bash', dd + '/demo.sh'], 300, '/repo')[0]
    rc, out = sh(['git', '-C', '/repo', 'apply', d + '/patch.diff'])
    if rc:
        sys.exit(out)
    try:
        rc, out = sh(['bash', '/opt/vp/test.sh', '/tmp/plantdemo/out.json'])
        r = json.load(open('/tmp/plantdemo/out.json'))
        stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        res['tests missing'] = sorted(stable - set(r['passed']))
        if os.path.exists(dd + '/demo.sh'):
            rc, out = sh(['bash', dd + '/demo.sh'], 300, '/repo')
            res['demo patched'] = (rc, out.strip()[-200:])
        for p in props or [S[id]['prop']]:
            t = time.time()
            rc, out = sh([sys.executable, 'run.py', p], 900, os.path.dirname(HERE), dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
            res[p] = (rc, 'VIOLATION property=%s' % p in out, round(time.time() - t), [l.strip()[:200] for l in out.splitlines() if 'rejected by' in l or 'CHECK ERROR' in l][:1])
    finally:
        sh(['git', '-C', '/repo', 'checkout', '--', '.'])
        shutil.rmtree(dd, ignore_errors=True)
    print(id, json.dumps(res, indent=None), flush=True)


if __name__ == '__main__':
    what, ids = sys.argv[1], sys.argv[2:] or sorted(S)
    for i in ids:
        i, _, ps = i.partition(':')
        if what == 'write':
            write(i)
        elif what == 'find':
            find(i)
        else:
            check(i, ps.split(',') if ps else None)
    if what == 'check':
        sh(['bash', '/opt/vp/build.sh'])

#!/usr/bin/env python3
"""Plant a bug: python3 tools/plant.py SPECFILE [id ...] [--check-only]
A spec file defines BUGS = {id: dict(property=, needs=, what_it_breaks=, edits=[(file, old, new), ...], demo=python text)}.
Everything happens in a copy of /repo that is mounted over /repo in a private mount namespace."""
import json, os, re, shutil, subprocess, sys

VERIF = '/verif'
DEMO = '#!/bin/bash\nexport MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\nD="$(cd "$(dirname "$0")" && pwd)"\nexec /opt/venv/bin/python "$D/demo.py"\n'


def edit(path, old, new):
    s = open(path, 'rb').read()
    crlf = b'\r\n' in s
    t = s.decode()
    if crlf:
        t = t.replace('\r\n', '\n')
    n = t.count(old)
    if n != 1:
        raise SystemExit('%s: %d occurrences of %r' % (path, n, old[:80]))
    t = t.replace(old, new)
    if crlf:
        t = t.replace('\n', '\r\n')
    open(path, 'wb').write(t.encode())


def ns(work, cmd, timeout=1200):
    p = subprocess.run(['unshare', '-m', 'bash', '-c', 'mount --bind %s /repo && cd /repo && %s' % (work, cmd)],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors='replace')


def plant(id, b, only_check=False):
    d = os.path.join(VERIF, 'seeded', id)
    work = '/tmp/plant_' + id
    shutil.rmtree(work, ignore_errors=True)
    shutil.copytree('/repo', work, symlinks=True)
    msg = [id, b['property']]
    try:
        for f, old, new in b['edits']:
            edit(os.path.join(work, f), old, new)
        diff = subprocess.run(['git', '-C', work, 'diff'], stdout=subprocess.PIPE, check=True).stdout
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'wb').write(diff)
        open(d + '/demo.sh', 'w').write(DEMO)
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.py', 'w').write(b['demo'])
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['what_it_breaks']), open(d + '/meta.json', 'w'), indent=1)
        if not only_check:
            r, out = subprocess.run(['bash', d + '/demo.sh'], cwd='/repo', stdout=subprocess.PIPE, stderr=subprocess.STDOUT).returncode, ''
            msg.append('clean demo %d' % r)
            ok = r == 0
            r, out = ns(work, 'flock /tmp/plant.lock bash /opt/vp/test.sh /tmp/plant_%s.json' % id)
            base = json.load(open('/opt/vp/BASELINE.json'))
            res = json.load(open('/tmp/plant_%s.json' % id))
            stable = base.get('stable') or base.get('passed') or base.get('tests')
            passed = set(res.get('passed', []))
            bad = [t for t in stable if t not in passed]
            msg.append('tests broken %d %s' % (len(bad), bad[:2]))
            r, out = ns(work, 'bash %s/demo.sh' % d)
            msg.append('patched demo %d' % r)
            ok = ok and r != 0 and not bad
            if not ok:
                msg.append('NOT VALID ' + out[-600:])
        else:
            ns(work, 'bash /opt/vp/build.sh')
        for c in b.get('checks', [b['property']]):
            cmd = [x['quick_cmd'] if 'quick_cmd' in x else x['quick'] for x in json.load(open(VERIF + '/MANIFEST.json'))['checks'] if x.get('property', x.get('id')) == c]
            if not cmd:
                msg.append('no check ' + c)
                continue
            r, out = ns(work, 'cd /verif && VERIF_SEED=1 VERIF_TIER=quick ' + cmd[0])
            v = [l for l in out.splitlines() if l.startswith('VIOLATION')]
            msg.append('check %s exit %d %s' % (c, r, (v[0][:150] if v else out[-300:].replace('\n', ' | '))))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    print(' ; '.join(msg), flush=True)


if __name__ == '__main__':
    env = {}
    exec(open(sys.argv[1]).read(), env)
    ids = [a for a in sys.argv[2:] if not a.startswith('--')] or list(env['BUGS'])
    for i in ids:
        plant(i, env['BUGS'][i], '--check-only' in sys.argv)

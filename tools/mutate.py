"""Try the checks on the changes listed in mutants/*.jsonl.

usage: mutate.py [-j N] [-u] [FILE.jsonl ...] [-c CHECK ...]

Each line is {"checks": [...], "file": "message/base.py", "old": text,
"new": text, "expect": "caught" | "silent"}: the change is made in a scratch
copy of /repo and the checks are run on it.  -u rewrites the expectations.
"""
import argparse
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(m):
    d = tempfile.mkdtemp(prefix='mutate')
    try:
        shutil.copytree('/repo/golem_messages', d + '/repo/golem_messages')
        shutil.copytree(HERE + '/gmcheck', d + '/verif/gmcheck')
        shutil.copy(HERE + '/known_findings.json', d + '/verif/')
        changes = m.get('changes') or [[m['file'], m['old'], m['new']]]
        for f, old, new in changes:
            p = os.path.join(d, 'repo/golem_messages', f)
            s = open(p, newline='').read()
            if '\r\n' in s:
                old = old.replace('\n', '\r\n')
                new = new.replace('\n', '\r\n')
            if old not in s:
                return 'pattern not found', ''
            open(p, 'w', newline='').write(s.replace(old, new, 1))
            try:
                compile(open(p).read(), p, 'exec')
            except SyntaxError as ex:
                return 'does not compile: %s' % ex, ''
        r = subprocess.run(
            [sys.executable, '-m', 'gmcheck'] + m['checks'],
            cwd=d + '/verif', env=dict(os.environ, GM_REPO=d + '/repo'),
            capture_output=True, text=True, timeout=1800)
        out = r.stdout.splitlines()
        if any(x.startswith('VIOLATION') for x in out):
            first = ''
            for x in out:
                if x.startswith('VIOLATION'):
                    p = d + '/verif/' + x.split('replay=')[1]
                    first = ' '.join(open(p).read().split())[:200]
                    break
            return 'caught', first
        und = [x for x in out if x.startswith('UNDECIDED')]
        if und:
            return 'undecided', und[0][:200]
        return ('silent' if r.returncode == 0 else
                'rc %d %s' % (r.returncode, r.stderr[-200:])), ''
    except subprocess.TimeoutExpired:
        return 'timeout', ''
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    a = argparse.ArgumentParser()
    a.add_argument('-j', type=int, default=6)
    a.add_argument('-u', action='store_true')
    a.add_argument('-v', action='store_true')
    a.add_argument('-c', nargs='*')
    a.add_argument('files', nargs='*')
    a = a.parse_args()
    files = a.files or sorted(glob.glob(HERE + '/mutants/*.jsonl'))
    bad = n = 0
    for f in files:
        ms = [json.loads(x) for x in open(f) if x.strip()]
        todo = [m for m in ms if not a.c or set(m['checks']) & set(a.c)]
        with ThreadPoolExecutor(a.j) as ex:
            for m, (got, why) in zip(todo, ex.map(run, todo)):
                n += 1
                ok = got == m.get('expect', 'caught')
                if not ok or a.v:
                    bad += not ok
                    print('%s %s: %s (%s)\n    %s %r => %r' % (
                        os.path.basename(f), '+'.join(m['checks']), got, why,
                        m.get('file'), m.get('old'), m.get('new')),
                        flush=True)
                if a.u and got in ('caught', 'silent', 'undecided'):
                    m['expect'] = got
        if a.u:
            with open(f, 'w') as o:
                for m in ms:
                    o.write(json.dumps(m) + '\n')
    print('%d changes, %d not as expected' % (n, bad))
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())

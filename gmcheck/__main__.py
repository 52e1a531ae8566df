"""python3 -m gmcheck ID: decide one property (or several) from the source."""
import os
import sys


def main(argv):
    if os.environ.get('PYTHONHASHSEED') != '0':
        env = dict(os.environ, PYTHONHASHSEED='0',
                   PYTHONDONTWRITEBYTECODE='1')
        os.execve(sys.executable, [sys.executable, '-m', 'gmcheck'] + argv,
                  env)
    sys.setrecursionlimit(20000)
    import threading
    threading.stack_size(512 * 1024 * 1024)
    out = []
    t = threading.Thread(target=lambda: out.append(run(argv)))
    t.start()
    t.join()
    return out[0] if out else 2


def run(argv):
    import time
    from . import checks, report
    from .engine import AnalysisError
    from .world import World
    tier = 'thorough' if '--thorough' in argv else os.environ.get(
        'VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    root = os.environ.get('GM_REPO', '/repo')
    ids = [a for a in argv if not a.startswith('-')]
    if ids == ['all']:
        ids = sorted(checks.CHECKS)
    rc = 0
    for pid in ids:
        t0 = time.time()
        if pid not in checks.CHECKS:
            print('no check for', pid)
            return 2
        fn, level = checks.CHECKS[pid]
        x = report.Ctx(pid, tier if tier in ('quick', 'thorough')
                       else 'quick', seed)
        w = None
        try:
            w = World(root)
            x.eng = w.e
            fn(x, w)
        except AnalysisError as e:
            x.obligations += 1
            x.undecided.append(('analysis', str(e)))
            print('ERROR property=%s %s' % (pid, e))
            if report.finish(x, w.e if w else None, t0, level) == 1:
                rc = 1
            elif rc != 1:
                rc = 2
            continue
        r = report.finish(x, w.e, t0, level)
        if r == 1:
            rc = 1
        elif r and rc != 1:
            rc = r
    return rc


if __name__ == '__main__':
    sys.stdout.flush()
    code = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(code)

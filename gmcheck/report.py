"""Obligations, verdicts, evidence."""
import json
import os
import sys
import time
import traceback

from . import history
from .history import ALL, NOTHING, SHARED
from .dom import show
from .engine import AnalysisError, Budget

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, 'known_findings.json')


# seconds for one obligation, and for all of a check
EACH = {'quick': 90, 'thorough': 600}
TOTAL = {'quick': 600, 'thorough': 7200}
PAST = {'quick': 60, 'thorough': 3600}
# earlier calls looked at per obligation, and per thing they leave behind
HISTORIES = {'quick': (8, 4), 'thorough': (60, 12)}


# gaps the obligations allow for: the values concerned are arbitrary
KNOWN_GAPS = ('a call of an unknown value', '?.')


class Fail(Exception):
    """A violation found while discharging an obligation."""

    # does it concern one path (or that there is none of some sort)?
    path = False

    def __init__(self, detail, where=''):
        super().__init__(detail)
        self.detail, self.where = detail, where


class Undecided(Exception):
    """The analysis is too coarse here to say either way."""


class Ctx:
    """What one check collects."""

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.obligations = 0
        self.discharged = 0
        self.violations = []
        self.undecided = []
        self.samples = []
        self.counts = {}
        self.assumptions = []
        self.rules = []
        self.start = time.monotonic()
        self.eng = None
        self.history, self.spent = True, 0

    def unknown(self):
        """Violations found so far that are not listed as known"""
        keys = {k['key'] for k in load_known()['findings']
                if k['property'] == self.pid}
        return [v for v in self.violations if v[0] not in keys]

    def gap(self):
        """Something this obligation went through that is not modelled"""
        if self.eng is None:
            return None
        for g in self.eng.gaps:
            if not g.startswith(KNOWN_GAPS):
                return g
        for why in self.eng.imprecise:
            return why[0]
        return None

    # -- recording
    def rule(self, text):
        self.rules.append(text)

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def ob(self, key, fn, *args, **kw):
        """One obligation: fn(*args) must return normally."""
        self.obligations += 1
        now = time.monotonic()
        if now > self.start + TOTAL[self.tier]:
            self.undecided.append((key, 'out of time'))
            return None
        if now > self.start + 25 and self.unknown():
            self.count('skipped after a violation')
            return None
        if self.eng is not None:
            self.eng.deadline = now + EACH[self.tier]
            del self.eng.gaps[:]
            del self.eng.imprecise[:]
            self.eng.traces = [] if self.history else None
            self.eng.nstates = 0
        try:
            r = fn(*args, **kw)
            if self.eng is not None and self.eng.traces:
                self.again(fn, args, kw, time.monotonic() - now)
        except Fail as e:
            gap = self.gap()
            if gap is not None:
                self.undecided.append((key, '%s (but the analysis has no '
                                       'model of %s)' % (e.detail, gap)))
                return None
            self.violations.append((key, e.where, e.detail))
            return None
        except Undecided as e:
            self.undecided.append((key, str(e)))
            return None
        except Budget as e:
            self.undecided.append((key, str(e)))
            return None
        except AnalysisError as e:
            self.undecided.append((key, 'analysis: %s' % e))
            return None
        except RecursionError:
            self.undecided.append((key, 'analysis too deep'))
            return None
        except MemoryError:
            self.undecided.append((key, 'out of memory'))
            return None
        except Exception as e:    # a gap of the analysis, not of the code
            tb = traceback.extract_tb(sys.exc_info()[2])[-1]
            self.undecided.append((key, 'internal: %s: %s (%s:%s)' % (
                type(e).__name__, e, os.path.basename(tb.filename),
                tb.lineno)))
            if os.environ.get('GMCHECK_DEBUG'):
                traceback.print_exc()
            return None
        self.discharged += 1
        if len(self.samples) < 12:
            self.samples.append('%s%s' % (
                key, ': ' + r if isinstance(r, str) else ''))
        return r if r is not None else True

    def again(self, fn, args, kw, first):
        """The same obligation once more, after an earlier call"""
        e, w = self.eng, self.eng.world
        traces, e.traces = e.traces, None
        if os.environ.get('GMCHECK_DEBUG'):
            print('dirty', {a for t in traces for a in t[2]})
        n, each = HISTORIES[self.tier]
        for leaf, k, st, addrs in history.scenarios(e, traces, n, each):
            saved, t0 = dict(w.opaque), time.monotonic()
            e.deadline = min(e.deadline, t0 + 3 * first + 1)
            if self.spent > PAST[self.tier]:
                self.count('histories skipped')
                continue
            try:
                # with only what the earlier call stored; with all that it
                # established; with that about the values it shares
                f = None
                for known in (NOTHING, ALL, SHARED):
                    g = self.once_more(fn, args, kw, leaf, k, st, addrs,
                                       known)
                    f = g if isinstance(g, Fail) else f
                    if g is None or known == ALL and g is f:
                        break
                f = g and f
                if f is not None:
                    raise Fail(
                        'after an earlier call that differed in %s: %s'
                        % (show(leaf), f.detail), f.where)
            finally:
                e.past = None
                self.spent += time.monotonic() - t0
                w.opaque.clear()
                w.opaque.update(saved)

    def once_more(self, fn, args, kw, leaf, k, st, addrs, known):
        e, w = self.eng, self.eng.world
        r, past = history.earlier(e, leaf, st, addrs, w.nested_ids, known)
        w.opaque.update({r.addr(a): c for a, c in list(w.opaque.items())
                         if a in r.moved})
        e.past, e.nstates = (k, past), 0
        self.count('histories')
        debug = os.environ.get('GMCHECK_DEBUG')
        try:
            fn(*args, **kw)
            if debug:
                print('   past %s: fine' % show(leaf))
        except Fail as f:
            # whether there is a path of some sort says nothing here
            if debug:
                print('   past %s: %s' % (show(leaf), f.detail[:200]))
            return f if f.path else None
        except (Undecided, Budget) as err:
            if debug:
                print('   past %s: open: %s' % (show(leaf), err))
            self.count('histories left open')
            return err if known == ALL else None
        return None

    def check(self, key, cond, detail='', where=''):
        def f():
            if not cond:
                raise Fail(detail or 'does not hold', where)
        return self.ob(key, f)


def load_known():
    try:
        with open(KNOWN) as f:
            return json.load(f)
    except FileNotFoundError:
        return {'findings': [], 'fixed': []}


def finish(x, eng, t0, level):
    known = [k for k in load_known()['findings'] if k['property'] == x.pid]
    new = []
    for v in x.violations:
        hit = [k for k in known if k['key'] == v[0]]
        if hit:
            print('KNOWN-FINDING: property=%s %s' % (x.pid, hit[0]['what']))
        else:
            new.append(v)
    for key, why in x.undecided[:20]:
        print('UNDECIDED property=%s %s: %s' % (x.pid, key, why[:300]))
    evdir = os.path.join(HERE, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    cov = {
        'obligations': x.obligations,
        'discharged': x.discharged,
        'explanation': 'Static analysis by abstract interpretation of the '
                       'current source: each obligation is a question about '
                       'all abstract paths of the named functions. '
                       + ' '.join(x.rules),
        'samples': x.samples,
        'rule': ' '.join(x.rules),
        'undecided': [{'obligation': k, 'why': w}
                      for k, w in x.undecided[:50]],
    }
    if eng is not None:
        cov['functions_analysed'] = len(eng.seen_funcs)
        cov['functions'] = sorted({
            eng.funcs[i].mod.replace('golem_messages.', '', 1) + ':'
            + eng.funcs[i].qual for i in eng.seen_funcs})[:400]
        cov['modules_parsed'] = len(eng.modtree)
    cov.update(x.counts)
    ev = {'property': x.pid, 'tier': x.tier, 'seed': x.seed, 'level': level,
          'coverage': cov, 'assumptions': x.assumptions or [
              'third-party libraries and the Python runtime behave as '
              'modelled (see DESIGN.md, trusted base)'],
          'wall_s': round(time.time() - t0, 3), 'violations': len(new)}
    with open(os.path.join(evdir, x.pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True, default=str)
    if new:
        path = os.path.join('evidence', x.pid + '.violation.txt')
        with open(os.path.join(HERE, path), 'w') as f:
            for key, where, detail in new:
                f.write('%s\n  at %s\n  %s\n\n' % (key, where, detail))
        for key, where, detail in new[:10]:
            print('%s: %s %s\n    %s' % (x.pid, key, where, detail[:1500]))
        print('VIOLATION property=%s replay=%s' % (x.pid, path))
        return 1
    if x.discharged == 0 or x.discharged * 10 < x.obligations:
        print('ERROR property=%s: only %d of %d obligations could be '
              'analysed' % (x.pid, x.discharged, x.obligations))
        return 2
    print('OK property=%s obligations=%d discharged=%d undecided=%d '
          'wall=%.1fs' % (x.pid, x.obligations, x.discharged,
                          len(x.undecided), time.time() - t0))
    return 0

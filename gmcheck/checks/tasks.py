"""Rules about task messages: ownership, chains, semantic validation."""
import time

from . import prop
from .common import *  # noqa: F401,F403
from .common import (
    AnalysisError, App, C, EnumM, FALSE, Fail, NONE, NT, R, Ref, Sym, TRUE,
    Tup, Undecided, is_exc, member, oks, ops, show, subterms, verified)
from ..engine import Budget
from ..dom import lin_add, lin_of, lin_scale
from ..world import FLAG, PAYLOAD, PRIV, SIG, TS
from .frame import SENDER, content, digest

CK = App('input', 'CONCENT', 64)
TTC = 'message.tasks:TaskToCompute'
W2CT = 'message.tasks:WantToComputeTask'
SRA = 'message.tasks:SubtaskResultsAccepted'
SRR = 'message.tasks:SubtaskResultsRejected'
FGTRF = 'message.concents:ForceGetTaskResultFailed'
FIELDS = ('task_id', 'subtask_id', 'provider_id', 'requestor_id',
          'task_to_compute')


def weight(q):
    return 1 + sum(weight(k) for k, _, _ in R.NESTED_FIELDS.get(
        q, {}).values())


# short chains first
KINDS_OF_TASK = sorted(R.OWNERS, key=lambda q: (weight(q), q))


def num_of(q):
    return [n for n, k in R.KINDS.items() if k == q][0]


class Node:
    """One message of a chain: its kind, name, object and sub-messages"""

    def __init__(self, q, name, ref, subs):
        self.q, self.name, self.ref, self.subs = q, name, ref, subs

    def all(self):
        yield self
        for s in self.subs.values():
            yield from s.all()

    def assignment(self):
        """The assignment this message refers to, None if it has none"""
        if self.q == TTC:
            return self
        for slot in R.PROVIDERS.get(self.q, ()):
            if slot in self.subs:
                t = self.subs[slot].assignment()
                if t is not None:
                    return t
        return None

    def assignments(self, first=True):
        """Assignments in documented order of preference"""
        if self.q == TTC:
            return [self]
        out = []
        for slot in R.PROVIDERS.get(self.q, ()):
            if slot in self.subs:
                out += self.subs[slot].assignments()
        return out


def key(node, role):
    """Term of the key text of a role in assignment `node`"""
    return App('input', '%s:%s' % (node.name, role), 64)


def deep(w, q, name, st, skip=(), opaque=True, attrs=None, num=True,
         header=True):
    """A chain: open messages of kind q and everything nested in it, with
    the keys of every assignment being different 64-byte values"""
    a, subs = {}, {}
    for slot, (k, none, lst) in R.NESTED_FIELDS.get(q, {}).items():
        if lst:
            continue
        if '%s.%s' % (name, slot) in skip:
            a[slot] = NONE
            continue
        subs[slot] = deep(w, k, '%s.%s' % (name, slot), st, skip, opaque)
        a[slot] = subs[slot].ref
    node = Node(q, name, None, subs)
    if q == TTC:
        a['requestor_public_key'] = App('hex', key(node, 'requestor'))
        wn = name + '.want_to_compute_task'
        th = None
        if header:
            thc = w.cls('datastructures.tasks:TaskHeader')
            th = w.e.open_inst(thc, wn + '.task_header', st, {})
            w.opaque[th.addr] = thc
        wa = {'provider_public_key': App('hex', key(node, 'provider'))}
        if th is not None:
            wa['task_header'] = th
        a['want_to_compute_task'] = w.open_msg(w.cls(W2CT), wn, st,
                                               num=num_of(W2CT), attrs=wa)
        node.offer = a['want_to_compute_task']
        node.task_header = th
        node.subs = {}
    a.update(attrs or {})
    node.ref = w.open_msg(w.cls(q), name, st, num=num_of(q), attrs=a,
                          opaque=opaque)
    return node


def variants(q, name='M', depth=1):
    """Which optional sub-messages may be absent: tuples of paths"""
    out = [()]
    for slot, (k, none, lst) in sorted(R.NESTED_FIELDS.get(q, {}).items()):
        if none:
            p = '%s.%s' % (name, slot)
            out = out + [s + (p,) for s in out]
        if depth and not lst:
            sub = variants(k, '%s.%s' % (name, slot), depth - 1)
            out = out + [s + v for s in out for v in sub if v]
    seen = []
    for s in out:
        s = tuple(sorted(set(s)))
        # drop paths below an absent one
        s = tuple(p for p in s if not any(
            p != o and p.startswith(o + '.') for o in s))
        if s not in seen:
            seen.append(s)
    return seen


def checked(w, o, node, top, concent=CK):
    """Is the signature of `node` known to be good for an allowed party?"""
    t = node.assignment()
    keys = []
    for role in R.OWNERS[node.q]:
        if role == 'concent':
            keys.append(concent)
        elif t is not None:
            keys.append(key(t, role))
    sig = w.val(node.ref, 'sig', o.st)
    h = w.val(node.ref, 'header', o.st)
    d = digest(h.items[0], h.items[1], content(w, node.ref, o.st))
    for k, s, m in verified(o.st):
        if k in keys and s == sig and m == d:
            return True
    return False


def header_checked(w, o, node):
    """Is the task header in the offer of assignment `node` signed by the
    requestor?"""
    t = node.task_header
    sig = w.val(t, 'signature', o.st)
    own = App('obj', node.name + '.want_to_compute_task.task_header')
    for k, s, m in verified(o.st):
        if k == key(node, 'requestor') and s == sig and any(
                x == own or isinstance(x, App) and x.op == 'obj' and
                show(x) == show(own) for x in subterms(m)):
            return True
    return False


def no_cbor_failure(w, st, node):
    """Encoding received content again does not fail"""
    ex = w.e.exc_class('Exception')
    for n in node.all():
        h = w.val(n.ref, 'header', st)
        st.facts[App('raises', ex, content(w, n.ref, st))] = False
        st.facts[App('raises', ex, App('cbor', App(
            'list', h.items[0], h.items[1])))] = False
        if n.q == TTC and n.task_header is not None:
            st.facts[App('raises', ex, App('cbor', App(
                'plain', w.e.freeze(n.task_header, st))))] = False


def by_contract(w, node, method, run, include=False):
    """Run with `method` of every nested message (of the message itself
    too, with include) replaced by its contract: it is recorded, with the
    Concent key it was given, or raises a signature error. The rule is
    proved for each kind under the assumption that it holds for the kinds
    nested in it; messages are finite trees."""
    mine = {n.ref.addr: n for n in node.all()}

    def stop(f, args, kws, st, n, fr):
        me = f.k[1]
        if not isinstance(me, Ref) or me.addr not in mine or (
                me == node.ref and not include):
            return None
        ck = args[0] if args else kws.get('concent_public_key', NONE)
        bad = st.fork()
        w.e.raise_(bad, w.exc('InvalidSignature'), (App(
            'exc', 'chain', me),), n, fr, origin='chain')
        good = st.fork()
        good.event('chainok', me, ck)
        return [(good, TRUE)]
    w.stops[method] = stop
    try:
        return run()
    finally:
        del w.stops[method]


def chain_ok(o, node, ck=CK):
    return any(e[0] == 'chainok' and e[1] == node.ref and e[2] == ck
               for e in o.st.ev)


def signature_error(w, o):
    return is_exc(w, o, 'InvalidSignature')


def unencodable(o):
    """Did encoding received content again fail on this path? What was
    decoded can be encoded."""
    return not o.ok and any(
        isinstance(k, App) and k.op == 'raises' and v is True and
        isinstance(k.args[-1], App) and k.args[-1].op == 'cbor'
        for k, v in o.st.facts.items())


# ------------------------------------------------------------------ C18

@prop('C18')
def c18(x, w):
    x.rule('Chains of every task message kind, with every nested message '
           'and every assignment key different: a path of validating '
           'ownership (or the chain) that succeeds must have established, '
           'for the message (for every message nested in it), that the key '
           'recovered from its own signature over its own content is that '
           'of an allowed party taken from its own assignment; all other '
           'paths raise signature errors.')

    def single(q, skip):
        st = w.e.state()
        node = deep(w, q, 'M', st, skip)
        if node.assignment() is None:
            return 'no assignment'
        no_cbor_failure(w, st, node)
        for ck in (CK, NONE) if 'concent' in R.OWNERS[q] else (CK,):
            outs = w.call(node.ref, 'validate_ownership', [], {
                'concent_public_key': ck}, st=st)
            if ck == CK or len(R.OWNERS[q]) > 1:
                oks(outs)
            for o in outs:
                if o.ok:
                    if not checked(w, o, node, node, ck):
                        w.fail(o, '%s passes although its signature was '
                                  'not verified for %s of its assignment'
                               % (q, ' or '.join(R.OWNERS[q])))
                elif ck != NONE and not signature_error(w, o) and \
                        not unencodable(o):
                    w.fail(o, 'a wrong signature raises %s' % o.exc_name)
            if ck == CK and not any(signature_error(w, o) for o in outs):
                raise Fail('%s: a wrong signature is never refused' % q)
            if ck == CK:
                # each allowed party can sign
                for role in R.OWNERS[q]:
                    k = CK if role == 'concent' else key(
                        node.assignment(), role)
                    if not any(o.ok and any(
                            v[0] == k and v[1] == w.val(
                                node.ref, 'sig', o.st)
                            for v in verified(o.st)) for o in outs):
                        raise Fail('%s signed by the %s is never accepted'
                                   % (q, role))
    for q in KINDS_OF_TASK:
        for skip in variants(q, depth=0):
            x.ob('own/%s%s' % (q, label(skip)), single, q, skip)

    def whole(q, skip):
        st = w.e.state()
        node = deep(w, q, 'M', st, skip)
        if any(n.assignment() is None for n in node.all()):
            return 'no assignment'
        no_cbor_failure(w, st, node)

        def run():
            return w.call(node.ref, 'validate_ownership_chain', [], {
                'concent_public_key': CK}, st=st)

        def judge(outs, parts, known):
            for o in oks(outs):
                for n in parts:
                    if not known(o, n):
                        w.fail(o, 'the chain passes although the signature '
                                  'of %s (%s) was not verified' % (
                                      n.name, n.q))
            for o in outs:
                if not o.ok and not signature_error(w, o) and \
                        not unencodable(o):
                    w.fail(o, 'a broken chain raises %s' % o.exc_name)
        parts = [node] + list(node.subs.values())
        try:
            judge(by_contract(w, node, 'validate_ownership_chain', run),
                  [n for n in parts if n.q in R.OWNERS],
                  lambda o, n: n is not node and chain_ok(o, n) or
                  checked(w, o, n, node))
        except Fail as first:
            # nested messages may be visited in another way
            try:
                with wide(w):
                    outs = run()
                judge(outs, [n for n in node.all() if n.q in R.OWNERS],
                      lambda o, n: checked(w, o, n, node))
            except (Fail, Budget):
                raise first
        return '%d messages' % len(parts)
    for q in KINDS_OF_TASK:
        for skip in variants(q, depth=0 if x.tier == 'quick' else 2):
            x.ob('chain/%s%s' % (q, label(skip)), whole, q, skip)


class wide:
    """Keep more paths apart"""

    def __init__(self, w, n=600):
        self.w, self.n = w, n

    def __enter__(self):
        e = self.w.e
        self.old = e.JOIN_AT, e.LOOP_AT, e.deadline
        e.JOIN_AT = e.LOOP_AT = self.n
        e.deadline = min(e.deadline, time.monotonic() + 30)

    def __exit__(self, *a):
        e = self.w.e
        e.JOIN_AT, e.LOOP_AT, e.deadline = self.old


def label(skip):
    return ''.join('-' + s.partition('.')[2] for s in skip)


# ------------------------------------------------------------------ C20

@prop('C20')
def c20(x, w):
    x.rule('Paths of verifying the owners of every task message kind with '
           'a provider key, a requestor key, both or none given: success '
           'implies equality of each given key with the key of its own '
           'role in the assignment and a fully verified chain; a path on '
           'which a given key is known to differ raises the mismatch.')
    PK, RK = App('input', 'GIVENPROV', 64), App('input', 'GIVENREQ', 64)

    def kind(q, given):
        st = w.e.state()
        node = deep(w, q, 'M', st)
        t = node.assignment()
        no_cbor_failure(w, st, node)
        kws = {'concent_public_key': CK}
        want = []
        if 'provider' in given:
            kws['provider_public_key'] = PK
            want.append((PK, key(t, 'provider')))
        if 'requestor' in given:
            kws['requestor_public_key'] = RK
            want.append((RK, key(t, 'requestor')))
        def run():
            return w.call(node.ref, 'verify_owners', [], kws, st=st)
        outs = by_contract(w, node, 'validate_ownership_chain', run, True)
        full = False
        if any(o.ok and not chain_ok(o, node) for o in outs):
            full = True
            with wide(w):
                outs = run()
        for o in oks(outs):
            for a, b in want:
                if not w.proves(o.st, '==', a, b):
                    w.fail(o, 'owners pass although the given key may '
                              'differ from %s' % show(b))
            for n in node.all() if full else ():
                if n.q in R.OWNERS and not checked(w, o, n, node):
                    w.fail(o, 'owners pass although the signature of %s '
                              'was not verified' % n.name)
        for a, b in want:
            hit = False
            for o in outs:
                if w.refutes(o.st, '==', a, b) and not unencodable(o):
                    hit = True
                    if not is_exc(w, o, 'OwnershipMismatch'):
                        w.fail(o, 'a differing key ends in %s' % (
                            'success' if o.ok else o.exc_name))
            if not hit:
                raise Fail('a given key is never compared with %s'
                           % show(b))
        for o in outs:
            if is_exc(w, o, 'OwnershipMismatch') and not any(
                    w.refutes(o.st, '==', a, b) for a, b in want):
                w.fail(o, 'a mismatch is raised although the keys agree')
    for q in KINDS_OF_TASK:
        for given in ((), ('provider',), ('requestor',),
                      ('provider', 'requestor')):
            x.ob('%s/%s' % (q, '+'.join(given) or 'none'), kind, q, given)


# ------------------------------------------------------------------ C21

@prop('C21')
def c21(x, w):
    x.rule('Success paths of validating the ownership of an assignment, of '
           'the chain of every kind containing one, and of verifying '
           'owners: each must have established that the signature of the '
           'task header in the offer of every assignment was made by the '
           'requestor named there.')

    def kind(q, method, skip, include=False):
        st = w.e.state()
        node = deep(w, q, 'M', st, skip)
        if node.assignment() is None:
            return 'no assignment'
        no_cbor_failure(w, st, node)

        def run():
            return w.call(node.ref, method, [], {
                'concent_public_key': CK}, st=st)
        direct = {n.ref: n for n in node.subs.values()}
        outs = by_contract(w, node, 'validate_ownership_chain', run,
                           include)
        bad = []
        for o in oks(outs):
            if include and chain_ok(o, node):
                continue
            if q == TTC:
                if not header_checked(w, o, node):
                    bad.append(node)
                continue
            bad += [n for n in node.subs.values()
                    if n.assignment() is not None and not chain_ok(o, n)]
        if not bad:
            return '%d paths' % len(outs)
        with wide(w):
            outs = run()
        for o in oks(outs):
            for n in node.all():
                if n.q == TTC and not header_checked(w, o, n):
                    w.fail(o, 'the task header of %s was not verified'
                           % n.name)
    x.ob('assignment', kind, TTC, 'validate_ownership', ())
    for q in KINDS_OF_TASK:
        for skip in variants(q, depth=0):
            x.ob('chain/%s%s' % (q, label(skip)), kind, q,
                 'validate_ownership_chain', skip)
        x.ob('owners/' + q, kind, q, 'verify_owners', (), True)

    def unsigned():
        st = w.e.state()
        node = deep(w, TTC, 'M', st)
        st.heap[node.task_header.addr] = w.e.o(
            node.task_header, st).with_attr('signature', NONE)
        for o in w.call(node.ref, 'validate_ownership', [], {
                'concent_public_key': CK}, st=st):
            if o.ok:
                w.fail(o, 'an unsigned task header is accepted')
    x.ob('unsigned-header', unsigned)


# ------------------------------------------------------------------ C22

@prop('C22')
def c22(x, w):
    x.rule('Every path of the five accessors on chains of every kind, with '
           'each combination of absent optional parts: the result is the '
           'value of the first assignment in documented order that has '
           'one, None only if none has.')

    def found(node, attr, o):
        """values of attr in the assignments of the chain, in order"""
        out = []
        for t in node.assignments():
            if attr == 'task_to_compute':
                out.append(w.e.freeze(t.ref, o.st))
            elif attr in ('task_id', 'subtask_id'):
                out.append(Sym('%s.%s' % (t.name, attr)))
            elif attr == 'requestor_id':
                out.append(Sym('%s.requestor_id' % t.name))
            else:
                out.append(Sym('%s.provider_id' % t.name))
        return out

    def fill(node, st):
        for t in node.all():
            if t.q != TTC:
                continue
            ctd = w.e.new_dict(st, [(C(f), Sym('%s.%s' % (t.name, f)))
                                    for f in ('task_id', 'subtask_id')])
            st.heap[t.ref.addr] = w.e.o(t.ref, st).with_attr(
                'compute_task_def', ctd)

    def kind(q, skip, attr):
        st = w.e.state()
        node = deep(w, q, 'M', st, skip, opaque=False)
        fill(node, st)
        n = 0
        for o in w.e.read(node.ref, attr, st):
            n += 1
            if not o.ok:
                w.fail(o, 'asking for %s raises %s' % (attr, o.exc_name))
            v = o.frozen()
            cand = found(node, attr, o)
            for c in cand:
                t = w.truthy(o.st, c) if isinstance(c, Sym) else {True}
                if v == c or v == w.e.freeze(o.val, o.st) and same_obj(
                        v, c):
                    if t != {True} and len(cand) > 1 and c != cand[-1]:
                        w.fail(o, '%s may be empty' % attr)
                    break
                if t != {False}:
                    w.fail(o, '%s of the first assignment is passed over, '
                              'giving %s' % (attr, show(v)))
            else:
                if v != NONE:
                    w.fail(o, '%s is %s' % (attr, show(v)))
        if not n:
            raise Undecided('no outcome')
    for q in KINDS_OF_TASK:
        for skip in variants(q, depth=0 if x.tier == 'quick' else 1):
            for attr in FIELDS:
                x.ob('%s%s/%s' % (q, label(skip), attr), kind, q, skip, attr)

    def no_definition():
        st = w.e.state()
        node = deep(w, TTC, 'M', st, opaque=False)
        st.heap[node.ref.addr] = w.e.o(node.ref, st).with_attr(
            'compute_task_def', NONE)
        for attr in ('task_id', 'subtask_id'):
            for o in w.e.read(node.ref, attr, st):
                if not o.ok or o.val != NONE:
                    w.fail(o, '%s without a definition' % attr)
    x.ob('no-definition', no_definition)


def same_obj(a, b):
    return a == b


# ------------------------------------------------------------------ C23

@prop('C23')
def c23(x, w):
    x.rule('Loading a frame of every task message kind with the semantic '
           'validation replaced by its contract (passes, raises a library '
           'error, raises anything): each returning path must contain a '
           'passing validation of the returned object, done after the '
           'sender signature was verified, for every option of loading.')
    VALID = App('validation')

    def kind(q, kws):
        num = num_of(q)
        calls = []

        def stop(f, args, kw, st, n, fr):
            me = f.k[1]
            s = st.fork()
            s.event('validated', me, tuple(
                v[1] for v in verified(s)))
            for exc in (w.exc('ValidationError'), 'Exception'):
                e = st.fork()
                e.event('refused')
                w.e.raise_(e, exc, (App('exc', 'valid'),), n, fr,
                           origin='valid', exact=False)
            calls.append(1)
            return [(s, TRUE)]
        w.stops['is_valid'] = stop
        try:
            outs = w.load(num, flag=FALSE, pub=SENDER, **kws)
        finally:
            del w.stops['is_valid']
        for o in oks(outs):
            ev = [e for e in o.st.ev if e[0] == 'validated' and
                  e[1] == o.val]
            if not ev:
                w.fail(o, 'a %s is returned without semantic validation'
                       % q)
            if any(e[0] == 'refused' for e in o.st.ev):
                w.fail(o, 'a failed validation is ignored')
            if SIG not in ev[0][2]:
                w.fail(o, 'validation comes before the signature check')
        if not any(e[0] == 'refused' for o in outs for e in o.st.ev):
            raise Fail('validation of %s cannot refuse it' % q)
        for o in outs:
            if not o.ok and not w.is_lib_error(o):
                w.fail(o, 'a failed validation raises %s' % o.exc_name)
    for q in KINDS_OF_TASK:
        x.ob('default/' + q, kind, q, {})
        x.ob('time-check-off/' + q, kind, q, {
            'check_time': FALSE, **({} if q == TTC else {'complete': ()})})

    def nosender(q):
        num = num_of(q)

        def stop(f, args, kw, st, n, fr):
            s = st.fork()
            s.event('validated', f.k[1], ())
            return [(s, TRUE)]
        w.stops['is_valid'] = stop
        try:
            kws = {} if q == TTC else {'complete': ()}
            for o in oks(w.load(num, flag=FALSE, pub=NONE, **kws)):
                if not any(e[0] == 'validated' and e[1] == o.val
                           for e in o.st.ev):
                    w.fail(o, 'without a sender key a %s is returned '
                              'without semantic validation' % q)
        finally:
            del w.stops['is_valid']
    for q in KINDS_OF_TASK:
        x.ob('no-sender/' + q, nosender, q)

    def verdict():
        """a verdict's two reports are about the same assignment"""
        st = w.e.state()
        node = deep(w, 'message.concents:VerdictReportComputedTask', 'M', st)
        a, b = [node.subs[s].assignment().ref for s in (
            'force_report_computed_task', 'ack_report_computed_task')]
        outs = w.call(node.ref, 'is_valid', [], st=st)
        for o in oks(outs):
            if not w.proves(o.st, '==', a, b):
                w.fail(o, 'a verdict about different assignments is valid')
        for o in outs:
            if not o.ok and not is_exc(w, o, 'ValidationError'):
                w.fail(o, 'a wrong verdict raises %s' % o.exc_name)
        if all(o.ok for o in outs):
            raise Fail('every verdict is valid')
    x.ob('verdict', verdict)


# ------------------------------------------------------------------ C24

@prop('C24')
def c24(x, w):
    x.rule('Bounds of (payment time - own timestamp) on every path of '
           'validating a results-accepted message, directly and while '
           'loading: valid implies -900 to 0 seconds, and the limits are '
           'exact.')
    PTS = Sym('PTS', ['int'])

    def judge(outs, ts, what):
        f = lin_add(lin_of(PTS), lin_scale(lin_of(ts), -1))
        ok = 0
        for o in outs:
            lo, ls, hi, hs = w.e.bounds(f[1], f[2], o.st)
            if o.ok:
                ok += 1
                if lo is None or lo < -900 or hi is None or hi > 0:
                    w.fail(o, '%s accepts payment times from %s to %s '
                              'seconds after its own time' % (what, lo, hi))
                if (lo, ls, hi, hs) != (-900, False, 0, False):
                    w.fail(o, '%s accepts only payment times from %s%s to '
                              '%s%s seconds' % (
                                  what, lo, ' (excluded)' if ls else '',
                                  hi, ' (excluded)' if hs else ''))
            elif is_exc(w, o, 'ValidationError'):
                late = lo is not None and (lo > 0 or lo == 0 and ls)
                early = hi is not None and (hi < -900 or
                                            hi == -900 and hs)
                if not late and not early:
                    w.fail(o, '%s refuses payment times from %s to %s'
                           % (what, lo, hi))
        if not ok:
            raise Fail('%s accepts no payment time' % what)

    def direct():
        st = w.e.state()
        node = deep(w, SRA, 'M', st, attrs={'payment_ts': PTS})
        outs = w.call(node.ref, 'is_valid', [], st=st)
        for o in outs:
            if not o.ok and not is_exc(w, o, 'ValidationError'):
                w.fail(o, 'validation raises %s' % o.exc_name)
            if o.ok and True not in w.truthy(o.st, o.val):
                w.fail(o, 'a valid message is reported as %s'
                       % show(o.val))
        judge(outs, Sym('M.ts', ['int']), 'validation')
        return '%d paths' % len(outs)
    x.ob('is_valid', direct)

    def load():
        st = w.e.state()
        e = w.e
        src = App('cborload', PAYLOAD)
        st.facts[App('raises', e.exc_class('Exception'), src)] = False
        st.ty[App('item', src, C('payment_ts'))] = frozenset(['int'])
        w.wellformed(st, src, R.FIELDS[SRA], R.FIELDS[SRA])
        n = 0
        for o in oks(w.load(num_of(SRA), flag=FALSE, pub=NONE, st=st)):
            v = w.val(o.val, 'payment_ts', o.st)
            f = lin_add(lin_of(v), lin_scale(lin_of(TS), -1))
            lo, ls, hi, hs = w.e.bounds(f[1], f[2], o.st)
            n += 1
            if (lo, ls, hi, hs) != (-900, False, 0, False):
                w.fail(o, 'loading accepts payment times from %s to %s '
                          'seconds after the message time' % (lo, hi))
        return '%d paths' % n
    x.ob('load', load)


# ------------------------------------------------------------------ C25

@prop('C25')
def c25(x, w):
    x.rule('Validation of rejections for every reason (and none), with and '
           'without the attached Concent proof, with equal and different '
           'task and subtask ids, and for both Concent settings when it '
           'must come from the requestor.')
    rq = SRR + '.REASON'
    allowed = {True: ('VerificationNegative', 'ForcedResourcesFailure'),
               False: ('VerificationNegative', 'ResourcesFailure')}
    names = list(R.ENUMS['message.tasks:SubtaskResultsRejected.REASON'])

    def make(st, reason, proof, concent=None):
        skip = () if proof else ('M.force_get_task_result_failed',)
        node = deep(w, SRR, 'M', st, skip, opaque=False,
                    attrs={'reason': reason})
        for t in node.all():
            if t.q == TTC:
                a = w.e.o(t.ref, st)
                ctd = w.e.new_dict(st, [
                    (C(f), Sym('%s.%s' % (t.name, f), ['str']))
                    for f in ('task_id', 'subtask_id')])
                a = a.with_attr('compute_task_def', ctd)
                if concent is not None and t is node.assignment():
                    a = a.with_attr('concent_enabled', concent)
                st.heap[t.ref.addr] = a
        return node

    def judge(outs, node, nm, proof, ok_reason, what):
        good = 0
        for o in outs:
            if not o.ok:
                if not is_exc(w, o, 'ValidationError'):
                    w.fail(o, '%s raises %s' % (what, o.exc_name))
                continue
            if True not in w.truthy(o.st, o.val):
                w.fail(o, '%s gives %s' % (what, show(o.val)))
            good += 1
            if not ok_reason:
                w.fail(o, '%s accepts reason %s %s proof' % (
                    what, nm, 'with' if proof else 'without'))
            if proof:
                mine = node.assignment()
                other = node.subs['force_get_task_result_failed'] \
                    .assignment()
                for f in ('task_id', 'subtask_id'):
                    a = Sym('%s.%s' % (mine.name, f), ['str'])
                    b = Sym('%s.%s' % (other.name, f), ['str'])
                    if not w.proves(o.st, '==', a, b) and not (
                            w.truthy(o.st, a) == {False} and
                            w.truthy(o.st, b) == {False}):
                        w.fail(o, '%s accepts a proof about another %s'
                               % (what, f))
        if ok_reason and not good:
            raise Fail('%s refuses reason %s %s proof: %s' % (
                what, nm, 'with' if proof else 'without', outs[0]))
        if ok_reason and proof and good == len(outs):
            raise Fail('%s never compares the proof' % what)

    def plain(nm, proof):
        st = w.e.state()
        r = NONE if nm is None else member(w, rq, nm)
        if r is None:
            raise Fail('there is no reason %s' % nm)
        node = make(st, r, proof)
        outs = w.call(node.ref, 'is_valid', [], st=st)
        ok = nm is not None and (
            proof or nm != 'ForcedResourcesFailure')
        judge(outs, node, nm, proof, ok, 'validation')

    def requestor(nm, proof, concent):
        st = w.e.state()
        r = NONE if nm is None else member(w, rq, nm)
        node = make(st, r, proof, TRUE if concent else FALSE)
        outs = w.call(node.ref, 'is_valid_for_requestor', [], st=st)
        ok = nm in allowed[concent] and (
            proof or nm != 'ForcedResourcesFailure')
        if nm is None:
            for o in outs:
                if o.ok:
                    w.fail(o, 'a rejection without reason is accepted')
            return
        judge(outs, node, nm, proof, ok,
              'validation for a requestor %s Concent' % (
                  'with' if concent else 'without'))
    for nm in [None] + names:
        for proof in (False, True):
            t = '%s-%s' % (nm, 'proof' if proof else 'noproof')
            x.ob('any/' + t, plain, nm, proof)
            for c in (False, True):
                x.ob('requestor/%s-%s' % (t, 'concent' if c else 'none'),
                     requestor, nm, proof, c)


# ------------------------------------------------------------------ C26

@prop('C26')
def c26(x, w):
    x.rule('Every returning path of loading an assignment must have '
           'established that the ethereum signature recovers to the stated '
           'requestor ethereum key over the contained offer, and that task '
           'id and subtask id both carry the node part of the stated '
           'requestor id.')
    num = num_of(TTC)

    def L(*items):
        return App('list', *items)
    text = {f: Sym('IN.' + f, ['str']) for f in R.FIELDS[TTC]}
    text.update({
        'compute_task_def': App(
            'dict', *[Tup(C(f), Sym('IN.' + f, ['str']))
                      for f in ('task_id', 'subtask_id')]),
        'want_to_compute_task': L(FALSE, L(
            L(C(num_of(W2CT)), Sym('NTS', ['int']), FALSE),
            App('input', 'NSIG', 65), Sym('NSL', ['list']))),
        'price': Sym('IN.price', ['int']), 'size': Sym('IN.size', ['int']),
        'ethsig': App('input', 'ETHSIG', 65),
        'requestor_ethereum_public_key': App('hex', App(
            'input', 'EPUB', 64))})
    payload = App('cbor', L(*[L(C(f), text[f]) for f in R.FIELDS[TTC]]))

    def outs():
        return w.load(num, flag=FALSE, priv=NONE, pub=NONE, payload=payload)

    def ethsig():
        n = 0
        for o in oks(outs()):
            n += 1
            offer = attr1(w, o, 'want_to_compute_task')
            sig = w.val(o.val, 'ethsig', o.st)
            keys = w.run('utils:decode_hex', [attr1(
                w, o, 'requestor_ethereum_public_key')], st=o.st)
            kt = [k.frozen() for k in keys if k.ok]
            h = w.val(offer, 'header', o.st)
            d = digest(h.items[0], h.items[1], content(w, offer, o.st))
            v = verified(o.st)
            if not any(s == sig and m == d and k in kt for k, s, m in v):
                w.fail(o, 'loaded although the ethereum signature was not '
                          'verified over the offer')
        return '%d paths' % n
    x.ob('ethsig', ethsig)

    def ids():
        n = 0
        for o in oks(outs()):
            n += 1
            ctd = attr1(w, o, 'compute_task_def')
            rid = attr1(w, o, 'requestor_id')
            for f in ('task_id', 'subtask_id'):
                v = [a for a in w.e.getitem(ctd, C(f), o.st.fork(), None,
                                            None)]
                ok = False
                for s, val in v:
                    # asking again gives the same answer: it was checked
                    again = w.run('idgenerator:check_id_hex_seed',
                                  [val, rid], st=s, implicit='try')
                    good = [a for a in again if a.ok and
                            w.truthy(a.st, a.val) == {True}]
                    if len(again) == 1 and len(good) == 1:
                        ok = True
                if not ok:
                    w.fail(o, 'loaded although %s was not compared with '
                              'the requestor id' % f)
        return '%d paths' % n
    x.ob('ids', ids)

    def errors():
        seen = set()
        for o in outs():
            if o.ok:
                continue
            if not w.is_lib_error(o):
                w.fail(o, 'raises %s' % o.exc_name)
            seen.add(o.exc_name)
            ctd = dict((a.items[0].v, a.items[1])
                       for a in text['compute_task_def'].args)
            blamed(w, o, ctd, text['requestor_id'])
            if o.exc_name == 'FieldError':
                seen.add('FieldError:%s' % show(
                    o.exc.attrs.get('field', NONE)))
        for want in ('InvalidSignature', "FieldError:'task_id'",
                     "FieldError:'subtask_id'"):
            if want not in seen:
                raise Fail('loading never raises %s (only %s)' % (
                    want, sorted(seen)))
    x.ob('errors', errors)

    def made():
        """what is generated is accepted, over the same content"""
        st = w.e.state()
        rk = App('input', 'EPUB', 64)
        node = deep(w, TTC, 'M', st, attrs={
            'requestor_ethereum_public_key': App('hex', rk)})
        for o in oks(w.call(node.ref, 'generate_ethsig', [PRIV], st=st)):
            sig = w.val(node.ref, 'ethsig', o.st)
            h = w.val(node.offer, 'header', o.st)
            d = digest(h.items[0], h.items[1],
                       content(w, node.offer, o.st))
            if sig != App('ecsign', App('privkey', PRIV), d, NONE):
                w.fail(o, 'the ethereum signature made is %s' % show(sig))
        st = w.e.state()
        node = deep(w, TTC, 'M', st, attrs={
            'requestor_ethereum_public_key': NONE})
        for o in w.call(node.ref, 'generate_ethsig', [PRIV], st=st):
            if o.ok or not w.is_lib_error(o):
                w.fail(o, 'an ethereum signature is made without a key')
    x.ob('made', made)


def attr1(w, o, name):
    vals = w.attr(o.val, name, o.st)
    if len({v for _, v in vals}) != 1:
        raise Undecided('several values for %s' % name)
    return vals[0][1]

"""Rules about closed tables: types, enumerations, issuers, hierarchy."""
from . import prop
from .common import *  # noqa: F401,F403
from .common import (
    AnalysisError, App, C, Cls, EnumM, Fail, NONE, R, Sym, Tup, Undecided,
    chain, field_error, is_exc, one_field, oks, plain, show, verified)


@prop('C01')
def c01(x, w):
    x.rule('Every class registered at import is compared with the published '
           'numbers; lookup in both directions, membership and the type a '
           'message writes are evaluated for every kind.')
    fwd, bwd = w.registry()
    e = w.e
    lib = e.mod_attr('register', 'library')

    def total():
        if not fwd:
            raise Fail('nothing is registered')
        for n, cls in fwd.items():
            if not (isinstance(n, int) and 0 <= n < 65536):
                raise Fail('%s has type %r which does not fit 16 bits' % (
                    w.name(cls), n), e.classes[cls.k[0]].file)
            if bwd.get(cls) != n:
                raise Fail('%s is registered as %s but reports %s' % (
                    w.name(cls), n, bwd.get(cls)))
        for cls, n in bwd.items():
            if fwd.get(n) != cls:
                raise Fail('%s reports %s but %s resolves to %s' % (
                    w.name(cls), n, n, fwd.get(n) and w.name(fwd[n])))
    x.ob('registry/bijective', total)
    x.count('registered_kinds', len(fwd))

    def kind(num, q, cls):
        if bwd.get(cls) != num:
            raise Fail('%s has type %s, published is %s' % (
                q, bwd.get(cls), num))
        if fwd.get(num) != cls:
            raise Fail('type %s resolves to %s, published is %s' % (
                num, fwd.get(num) and w.name(fwd[num]), q))
        for name, arg, want in (('__getitem__', C(num), cls),
                                ('get_type', cls, C(num))):
            outs = w.call(lib, name, [arg], implicit='all')
            for o in outs:
                if not o.ok:
                    raise Fail('library.%s(%s) raises %s' % (
                        name, show(arg), o.exc_name), o.where)
                if o.val != want:
                    raise Fail('library.%s(%s) gives %s' % (
                        name, show(arg), o), '')
            if not outs:
                raise Undecided('no outcome')
        for o in w.call(lib, '__contains__', [C(num)]):
            if not o.ok or w.truthy(o.st, o.val) != {True}:
                raise Fail('%s not in library: %s' % (num, o))
        # what a new message says about itself
        outs = oks(w.run(cls, [], {}, implicit='none'))
        for o in outs:
            h = w.val(o.val, 'header', o.st)
            if not w.proves(o.st, '==', h.items[0], C(num)):
                raise Fail('a new %s gets type %s' % (q, show(h.items[0])))

    for num, q in sorted(R.KINDS.items()):
        x.ob(q, lambda n=num, k=q: kind(n, k, w.cls(k)))

    def written(num, q, cls):
        st = e.state()
        m = w.open_msg(cls, 'M', st, attrs={
            'sig': App('input', 'SIG', 65)}, num=num)
        for o in w.call(m, 'serialize', [], st=st, implicit='none'):
            if not o.ok:
                raise Fail('serialize raises %s' % o, o.where)
            v = o.frozen()
            first = v.args[0] if isinstance(v, App) and v.op == 'cat' else v
            if isinstance(first, C) and isinstance(first.v, bytes):
                got = first.v[:2]
                if got != num.to_bytes(2, 'big'):
                    raise Fail('%s is written with type bytes %r' % (q, got))
            else:
                raise Undecided('type bytes of the frame: %s' % show(first))
    def unregistered():
        """a class which was never registered has no number, whatever it
        inherits from"""
        n = 0
        base = w.cls('message.base:Message')
        for i in e.classes:
            cls = Cls(i.id)
            if cls in bwd or base not in (i.mro or ()):
                continue
            refuse(lib, cls, e.state())
            n += 1
        parent = w.cls('message.tasks:TaskMessage')
        for num, q in sorted(R.KINDS.items()):
            cls = w.cls(q)
            if cls == parent or not w.sub(cls, parent):
                continue
            for o in oks(w.run(w.cls('register:MessageRegister'))):
                for o1 in oks(w.call(o.val, 'register', [C(7)], st=o.st,
                                     implicit='all')):
                    for o2 in oks(w.run(o1.val, [parent], st=o1.st,
                                        implicit='all')):
                        refuse(o.val, cls, o2.st)
                        n += 1
            break
        if not n:
            raise Undecided('nothing to ask')
        return '%d classes' % n

    def refuse(reg, cls, st):
        for o in w.call(reg, 'get_type', [cls], st=st, implicit='all'):
            if o.ok:
                raise Fail('%s was never registered and reports %s' % (
                    w.name(cls), show(o.frozen())), 'get_type')
    x.ob('never registered', unregistered)

    for num, q in sorted(R.KINDS.items()):
        x.ob(q + '/written', lambda n=num, k=q: written(n, k, w.cls(k)))


@prop('C02')
def c02(x, w):
    x.rule('register() is analysed on a registry about which nothing is '
           'known; every path that stores is shown to have excluded an '
           'existing entry, and every refusing path to have stored nothing.')
    e = w.e
    rcls = w.cls('register:MessageRegister')

    def fresh():
        """register two arbitrary kinds on a new registry"""
        st = e.state()
        n1, n2 = Sym('n1', ['int']), Sym('n2', ['int'])
        c1, c2 = w.cls('message.base:RandVal'), w.cls('message.p2p:Ping')
        done = refused = 0
        for o in oks(w.run(rcls, st=st)):
            lib = o.val
            for o1 in reg(lib, n1, c1, o.st):
                if not o1.ok:
                    raise Fail('first registration fails: %s' % o1, o1.where)
                for o2 in reg(lib, n2, c2, o1.st):
                    same = w.ask(o2.st, '==', n1, n2)
                    if o2.ok:
                        if True in same:
                            raise Fail('a number can be registered twice: %s'
                                       % w.describe(o2), 'register')
                        done += 1
                        expect(lib, o2.st, n1, c1)
                        expect(lib, o2.st, n2, c2)
                    else:
                        if False in same:
                            raise Fail('a free number is refused: %s' %
                                       w.describe(o2), o2.where)
                        refused += 1
                        expect(lib, o2.st, n1, c1)
                        for o3 in w.call(lib, 'get_type', [c2], st=o2.st,
                                         implicit='all'):
                            if o3.ok:
                                raise Fail('a refused kind got number %s' %
                                           show(o3.frozen()), 'register')
        if not done or not refused:
            raise Fail('registering twice: %d accepted, %d refused paths' % (
                done, refused))

    def reg(lib, n, c, st):
        out = []
        for o in w.call(lib, 'register', [n], st=st, implicit='all'):
            if o.ok:
                out.extend(w.run(o.val, [c], st=o.st, implicit='all'))
            else:
                out.append(o)
        return out

    def expect(lib, st, n, c):
        for o in w.call(lib, '__getitem__', [n], st=st, implicit='all'):
            if not o.ok or o.val != c:
                raise Fail('the kind registered as %s is not found by it: '
                           '%s' % (show(n), o))
        for o in w.call(lib, 'get_type', [c], st=st, implicit='all'):
            if not o.ok or not w.proves(o.st, '==', o.val, n):
                raise Fail('kind registered as %s reports %s' % (
                    show(n), o))

    def real():
        """the registry in use refuses every number it already has"""
        fwd, _ = w.registry()
        lib = e.mod_attr('register', 'library')
        c = w.cls('datastructures:MessageHeader')
        for num in fwd:
            for o in reg(lib, C(num), c, e.state()):
                if o.ok:
                    raise Fail('type %s can be taken over' % num)
                if not w.sub(o.exc_cls, e.exc_class('Exception')):
                    raise Fail('refused with %s' % o.exc_name)
                expect(lib, o.st, C(num), fwd[num])
        return '%d numbers' % len(fwd)
    x.ob('two registrations', fresh)
    x.ob('library in use', real)


@prop('C03')
def c03(x, w):
    x.rule('Members of every enumeration are read from the class bodies and '
           'compared with the published ones; every enumerated field is '
           'loaded abstractly with each value, an unknown value and no '
           'value.')
    e = w.e

    def values(q, want):
        info = e.classes[w.cls(q).k[0]]
        if not info.enum:
            raise Fail('%s is no enumeration any more' % q, info.file)
        got = {}
        for n, m in info.members.items():
            v = m.value
            if not isinstance(v, C):
                raise Undecided('value of %s.%s: %s' % (q, n, show(v)))
            got[n] = v.v
        for n, v in want.items():
            if n not in got:
                raise Fail('%s lost %s' % (q, n), info.file)
            if got[n] != v or type(got[n]) is not type(v):
                raise Fail('%s.%s is %r, published %r' % (q, n, got[n], v),
                           info.file)
        if len(set(map(repr, got.values()))) != len(got):
            raise Fail('%s has equal values' % q, info.file)
        return '%d values' % len(got)

    def field(num, q, f, enumq):
        cls = w.cls(enumq)
        info = e.classes[cls.k[0]]
        for n, v in R.ENUMS[enumq].items():
            outs = one_field(w, num, f, C(v))
            for o in outs:
                if not o.ok:
                    raise Fail('%s.%s=%r is refused: %s' % (q, f, v, o),
                               o.where)
                got = w.val(o.val, f, o.st)
                if got != info.members.get(n):
                    raise Fail('%s.%s=%r loads as %s' % (
                        q, f, v, show(got)))
            if not outs:
                raise Undecided('no outcome')
        bad = 'no such value \0'
        near = {c for n, v in R.ENUMS[enumq].items() if isinstance(v, str)
                for c in (v.lower(), v.upper(), v.swapcase(), ' ' + v,
                          v + ' ', v[:-1], v[1:], v + '\n', n,
                          '%s.%s' % (info.name, n))} - set(
                              R.ENUMS[enumq].values())
        for value in (C(bad), C(987654321), C(True), C(1.5),
                      *[C(c) for c in sorted(near)]):
            for o in one_field(w, num, f, value):
                if o.ok:
                    raise Fail('%s.%s=%s is accepted as %s' % (
                        q, f, show(value), show(w.val(o.val, f, o.st))))
                if not field_error(w, o, f):
                    raise Fail('%s.%s=%s raises %s instead of a field error '
                               'naming it' % (q, f, show(value), o), o.where)
        for o in oks(one_field(w, num, f, NONE)):
            if q == 'message.tasks:TaskFailure':
                continue     # documented default, see C49
            if w.val(o.val, f, o.st) != NONE:
                raise Fail('missing %s.%s becomes %s' % (
                    q, f, show(w.val(o.val, f, o.st))))
        v = Sym('V', ['str', 'int', 'bytes', 'float', 'bool'])
        n_ok = n_bad = 0
        for o in one_field(w, num, f, v):
            if o.ok:
                n_ok += 1
                for s, got in w.attr(o.val, f, o.st):
                    if isinstance(got, EnumM) and got.k[0] == cls and \
                            not w.refutes(s, '==', v, got.value) and (
                                w.proves(s, '==', v, got.value)):
                        continue
                    if isinstance(got, App) and got.op == 'enum' and \
                            got.args[0] == cls and got.args[1] == v:
                        continue
                    w.fail(o, 'an arbitrary %s.%s is stored as %s' % (
                        q, f, show(got)))
            else:
                n_bad += 1
                if not field_error(w, o, f, v):
                    w.fail(o, 'invalid %s.%s is not reported as field error '
                           'with field and value' % (q, f))
        if not n_ok or not n_bad:
            raise Fail('%s.%s: %d accepting, %d refusing paths' % (
                q, f, n_ok, n_bad))

    for q, want in R.ENUMS.items():
        x.ob(q, values, q, want)
    nums = {q: n for n, q in R.KINDS.items()}
    for q, d in R.ENUM_FIELDS.items():
        for f, enumq in d.items():
            x.ob('%s.%s' % (q, f), field, nums[q], q, f, enumq)


@prop('C19')
def c19(x, w):
    x.rule('validate_ownership is analysed for every task message kind on a '
           'message with unknown content; the keys for which any accepting '
           'path verified the signature are compared with the documented '
           'issuers.')

    def kind(q):
        st = w.e.state()
        ck = App('input', 'CONCENT_KEY', 64)
        m = chain(w, q, 'M', st)
        ttc = None
        for o in w.e.read(m, 'task_to_compute', st):
            if not o.ok:
                raise Fail('no task_to_compute: %s' % o)
            ttc = o.val
        keys = {}
        for role, attr in (('provider', 'provider_public_key'),
                           ('requestor', 'requestor_public_key')):
            k = w.val(ttc, attr, st)
            keys[App('unhex', k)] = role
        keys[ck] = 'concent'
        roles = set()
        sig = w.val(m, 'sig', st)
        for o in w.call(m, 'validate_ownership', [ck], st=st):
            if not o.ok:
                continue
            here = [k for k, s, d in verified(o.st) if s == sig]
            if not here:
                w.fail(o, '%s validates without a verified signature' % q)
            for k in here:
                if k not in keys:
                    w.fail(o, '%s verified with %s' % (q, show(k)))
                roles.add(keys[k])
        if roles != set(R.OWNERS[q]):
            raise Fail('%s accepts signatures of %s, documented: %s' % (
                q, sorted(roles), sorted(R.OWNERS[q])))
        return ','.join(sorted(roles))

    def none():
        """a kind that names no issuer never validates"""
        st = w.e.state()
        cls = w.cls('message.tasks:TaskMessage')
        ttc = chain(w, 'message.tasks:TaskToCompute', 'T', st)
        # such a kind, with an assignment to refer to
        ns = ('ns', 'c', cls.k[0])
        st.heap[ns] = w.e.obj(ns, st).with_attr('task_to_compute', ttc)
        m = w.open_msg(cls, 'M', st)
        outs = w.call(m, 'validate_ownership',
                      [App('input', 'CONCENT_KEY', 64)], st=st)
        for o in outs:
            if o.ok:
                w.fail(o, 'a kind without issuers validates')
            if not is_exc(w, o, 'InvalidSignature'):
                w.fail(o, 'a kind without issuers raises %s' % o.exc_name)
        if not outs:
            raise Undecided('no outcome')

    for q in R.OWNERS:
        x.ob(q, kind, q)
    x.ob('no issuers', none)


FAMILY = {
    'MessageError': ['builtins.RuntimeError'],
    'HeaderError': ['MessageError'],
    'TimestampError': ['HeaderError'],
    'FieldError': ['MessageError'],
    'MessageTooOldError': ['TimestampError'],
    'MessageFromFutureError': ['TimestampError'],
    'CryptoError': ['MessageError'],
    'InvalidSignature': ['CryptoError'],
    'InvalidKeys': ['CryptoError'],
    'DecryptionError': ['CryptoError'],
    'SerializationError': ['MessageError'],
    'SignatureAlreadyExists': ['SerializationError'],
    'VersionMismatchError': ['MessageError'],
    'OwnershipMismatch': ['MessageError'],
    'ValidationError': ['MessageError'],
}


@prop('C42')
def c42(x, w):
    x.rule('The class hierarchy of the exceptions module is resolved (C3 '
           'linearisation) and compared with the documented families; any '
           'exception class defined elsewhere in the library must belong to '
           'it too.')
    e = w.e
    root = w.exc('MessageError')

    def fam(name, parents):
        c = w.exc(name)
        for p in parents:
            pc = e.exc_class(p.split('.')[1]) if '.' in p else w.exc(p)
            if not w.sub(c, pc):
                raise Fail('%s is no %s any more' % (name, p),
                           e.classes[c.k[0]].file)

    for n, ps in FAMILY.items():
        x.ob(n, fam, n, ps)

    def every(i):
        c = Cls(i.id)
        if not w.sub(c, root):
            raise Fail('%s:%s is no MessageError' % (i.mod, i.qual), i.file)

    for i in list(e.classes):
        base = any(not isinstance(b, Cls) and e.py_exc(b)
                   for b in e.mro(Cls(i.id)))
        if base:
            x.ob('%s:%s' % (i.mod, i.qual), every, i)

    def siblings():
        """families a handler relies on stay apart"""
        for a, b in (('DecryptionError', 'InvalidSignature'),
                     ('InvalidKeys', 'InvalidSignature'),
                     ('FieldError', 'HeaderError'),
                     ('MessageTooOldError', 'MessageFromFutureError'),
                     ('OwnershipMismatch', 'InvalidSignature'),
                     ('ValidationError', 'FieldError'),
                     ('VersionMismatchError', 'HeaderError'),
                     ('CryptoError', 'SerializationError')):
            if w.sub(w.exc(a), w.exc(b)) or w.sub(w.exc(b), w.exc(a)):
                raise Fail('%s and %s are not distinct any more' % (a, b))
    x.ob('distinct families', siblings)


EXPORTS = {
    'base': ['Message', 'Hello', 'RandVal', 'Disconnect',
             'ChallengeSolution'],
    'p2p': ['Ping', 'Pong', 'GetPeers', 'GetTasks', 'Peers', 'Tasks',
            'RemoveTask', 'FindNode', 'GetResourcePeers', 'ResourcePeers',
            'WantToStartTaskSession', 'SetTaskSession', 'Degree', 'Gossip',
            'StopGossip', 'LocRank', 'RemoveTaskContainer'],
    'tasks': ['ComputeTaskDef', 'CannotAssignTask', 'CannotComputeTask',
              'TaskToCompute', 'WantToComputeTask', 'ReportComputedTask',
              'TaskFailure', 'StartSessionResponse', 'SubtaskPayment',
              'SubtaskPaymentRequest'],
    'resources': ['PushResource', 'HasResource', 'WantsResource',
                  'PullResource', 'PullAnswer', 'ResourceHandshakeStart',
                  'ResourceHandshakeNonce', 'ResourceHandshakeVerdict'],
}


@prop('C48')
def c48(x, w):
    x.rule('Module namespaces after import are compared: each published '
           'name must be bound to the very class or function of its own '
           'module.')

    def same(pub, name, mod, orig=None):
        try:
            a = w.e.mod_attr(pub, name)
        except AnalysisError as ex:
            raise Fail('%s.%s can not be imported: %s' % (pub, name, ex))
        b = w.e.mod_attr(mod, orig or name)
        if a != b:
            raise Fail('%s.%s is %s, not %s.%s' % (pub, name, show(a), mod,
                                                   name))

    for m, names in EXPORTS.items():
        for n in names:
            x.ob('message.%s' % n, same, 'message', n, 'message.' + m)
    x.ob('dump', same, '', 'dump', 'shortcuts')
    x.ob('load', same, '', 'load', 'shortcuts')
    x.ob('ECCx', same, '', 'ECCx', 'cryptography')
    for m in ('base', 'concents', 'p2p', 'resources', 'tasks'):
        def sub(m=m):
            v = w.e.mod_attr('message', m)
            if show(v).find('message.' + m) < 0:
                raise Fail('message.%s is %s' % (m, show(v)))
        x.ob('message.' + m, sub)

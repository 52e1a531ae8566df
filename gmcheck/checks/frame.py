"""Rules about the frame: layout, signature, policy, time, header, version."""
from . import prop
from .common import *  # noqa: F401,F403
from .common import (
    AnalysisError, App, C, EnumM, FALSE, Fail, Many, NONE, NT, R, Ref, Sym,
    TRUE, Tup, Undecided, cat, is_exc, oks, ops, show, subterms, verified)
from ..dom import NOW, lin_add, lin_of, lin_scale
from ..world import FLAG, PAYLOAD, PRIV, SIG, TS, VER

SENDER = App('input', 'SENDER', 64)
RCPT = App('input', 'RCPT', 64)
OWNSIG = App('input', 'OWNSIG', 65)
HELLO = 'message.base:Hello'
ZERO = C(b'\0' * 65)


def policy(q):
    return R.POLICY_EXCEPTIONS.get(q, (True, True))


def version_of(q):
    """Encoded version of an open greeting M, or None"""
    return App('encode', 'ascii', 'replace', Sym('M._version')) \
        if q == HELLO else None


def message(w, q, num, st, sig=NONE, enc=None, name='M'):
    return w.open_msg(w.cls(q), name, st, num=num, attrs={'sig': sig},
                      enc=enc)


def content(w, m, st):
    """The payload bytes of open message m, as term"""
    return App('cbor', App('slots', w.e.freeze(m, st)))


def digest(num, ts, payload, version=None):
    parts = App('sha1', cat(App('cbor', App('list', num, ts)), payload))
    if version is not None:
        parts = cat(parts, version)
    return App('sha3_256', parts)


def norm(v):
    """Abstract over how names in terms are spelled (C('x') or 'x')"""
    if isinstance(v, C) and isinstance(v.v, str):
        return v.v
    if isinstance(v, App):
        return App(v.op, *[norm(a) for a in v.args])
    if isinstance(v, Tup):
        return Tup(*[norm(a) for a in v.items])
    return v


def same(a, b):
    return norm(a) == norm(b)


def expected_frame(w, q, num, st, flag, sig, payload):
    parts = [C(num.to_bytes(2, 'big')),
             App('pk', 'u8', '>', Sym('M.ts', ['int'])),
             C(b'\1' if flag else b'\0'), sig]
    parts += payload
    v = version_of(q)
    if v is not None:
        parts.append(App('pk', '32p', '', v))
    return cat(*parts)


def dumped(w, m, priv, pub, st):
    return w.run('shortcuts:dump', [m, priv, pub], st=st)


def split_frame(w, o, q, num):
    """(flag, sig, payload parts) of a dumped frame; checks the rest"""
    v = o.frozen()
    args = list(v.args) if isinstance(v, App) and v.op == 'cat' else [v]
    # constant parts may have been merged
    head = C(num.to_bytes(2, 'big'))
    if not args or args[0] != head:
        w.fail(o, 'the frame does not start with the type: %s' % show(v))
    if len(args) < 3 or args[1] != App('pk', 'u8', '>',
                                       Sym('M.ts', ['int'])):
        w.fail(o, 'the type is not followed by the timestamp as 8 bytes: %s'
               % show(v))
    rest = args[2:]
    if not (isinstance(rest[0], C) and isinstance(rest[0].v, bytes) and
            rest[0].v):
        w.fail(o, 'the timestamp is not followed by the flag byte: %s'
               % show(v))
    b = rest[0].v
    flag = b[:1]
    if flag not in (b'\0', b'\1'):
        w.fail(o, 'the flag byte is %r' % flag)
    if len(b) > 1:
        rest = [C(b[1:])] + rest[1:]
    else:
        rest = rest[1:]
    if not rest:
        w.fail(o, 'there is no signature: %s' % show(v))
    sig = rest[0]
    n = w.e.models.len_of(sig, o.st)
    if isinstance(sig, C) and isinstance(sig.v, bytes) and len(sig.v) > 65:
        rest = [C(sig.v[:65]), C(sig.v[65:])] + rest[1:]
        sig, n = rest[0], 65
    if n != 65:
        w.fail(o, 'the signature %s does not fill 65 bytes' % show(sig))
    rest = rest[1:]
    ver = version_of(q)
    if ver is not None:
        if not rest or not same(rest[-1], App('pk', '32p', '', ver)):
            w.fail(o, 'the frame does not end with the version: %s'
                   % show(v))
        rest = rest[:-1]
    return flag == b'\1', sig, rest


@prop('C04')
def c04(x, w):
    x.rule('For every kind the dumped bytes, as a sequence of fixed-size '
           'packed terms, are compared with the frame layout; every path '
           'of loading a symbolic frame must take header, signature, '
           'payload and version from exactly its parts; dumping and then '
           'loading must give back the same parts.')

    def dump(num, q):
        for sig, priv in ((NONE, NONE), (NONE, PRIV), (OWNSIG, NONE)):
            st = w.e.state()
            m = message(w, q, num, st, sig)
            want = content(w, m, st)
            for o in oks(dumped(w, m, priv, NONE, st)):
                flag, s, rest = split_frame(w, o, q, num)
                if flag:
                    w.fail(o, 'the flag is set without encryption')
                if len(rest) != 1 or not same(rest[0], want):
                    w.fail(o, 'the signature is not followed by the encoded '
                              'fields: %s' % show(o.frozen()))
                if sig != NONE and s != sig:
                    w.fail(o, 'the signature field holds %s' % show(s))
    for num, q, cls in w.kinds():
        x.ob('dump/' + q, dump, num, q)

    def load(num, q):
        outs = loaded_frame(w, num, q)
        for o in outs:
            for f in list(o.st.facts):
                for t in ops(f, 'cborload'):
                    if t.args[0] != PAYLOAD:
                        w.fail(o, 'decodes %s instead of the payload'
                               % show(t.args[0]))
        return '%d paths' % len(outs)
    for num, q, cls in w.kinds():
        x.ob('load/' + q, load, num, q)

    def back(num, q):
        st = w.e.state()
        m = message(w, q, num, st, OWNSIG)
        pl = content(w, m, st)
        n = 0
        for o in oks(dumped(w, m, NONE, NONE, st)):
            for o2 in w.load(num, data=o.val, priv=NONE, pub=NONE,
                             st=o.st, payload=pl):
                if not o2.ok:
                    if o2.exc_name in ('HeaderError',) and ops(
                            o2.val, 'unpack'):
                        w.fail(o2, 'an own frame cannot be read')
                    continue
                n += 1
                check_loaded(w, o2, num, q, Sym('M.ts', ['int']), FALSE,
                             OWNSIG, {pl}, None)
                if q == HELLO:
                    v = w.val(o2.val, '_version', o2.st)
                    if not any(a == Sym('M._version')
                               for a in subterms(v)):
                        w.fail(o2, 'the version read is %s' % show(v))
        if not n:
            raise Fail('what was dumped is never loaded')
    for num, q, cls in w.kinds():
        x.ob('dump-load/' + q, back, num, q)


def loaded_frame(w, num, q):
    outs = w.load(num, priv=NONE, pub=NONE)
    for o in oks(outs):
        check_loaded(w, o, num, q, TS, FLAG, SIG, {PAYLOAD},
                     VER if q == HELLO else None)
    return outs


def check_loaded(w, o, num, q, ts, flag, sig, payloads, version):
    """Is the loaded message made of exactly these parts?"""
    if w.e.o(o.val, o.st).cls != w.cls(q):
        w.fail(o, 'type %d loads as %s' % (num, w.name(
            w.e.o(o.val, o.st).cls)))
    h = w.val(o.val, 'header', o.st)
    if not isinstance(h, NT) or len(h.items) != 3:
        w.fail(o, 'the header is %s' % show(h))
    for nm, got, want in (('type', h.items[0], C(num)),
                          ('timestamp', h.items[1], ts),
                          ('flag', h.items[2], flag)):
        if got != want and not w.proves(o.st, '==', got, want):
            w.fail(o, 'the %s of the loaded message is %s' % (
                nm, show(got)))
    s = w.val(o.val, 'sig', o.st)
    if s != sig:
        w.fail(o, 'the signature of the loaded message is %s' % show(s))
    for f in R.FIELDS[q]:
        for st, v in w.attr(o.val, f, o.st):
            v = w.e.freeze(v, st)
            for t in ops(v, 'cborload'):
                if t.args[0] not in payloads:
                    w.fail(o, 'field %s is read from %s' % (
                        f, show(t.args[0])))
    if version is not None:
        v = norm(w.val(o.val, '_version', o.st))
        want = App('upk', '32p', '', version)
        if not (isinstance(v, App) and v.op == 'decode' and
                v.args[0] == 'ascii' and v.args[-1] == want):
            w.fail(o, 'the version of the loaded greeting is %s' % show(v))


# ------------------------------------------------------------------ C05

@prop('C05')
def c05(x, w):
    x.rule('The list of fields every kind hands to the encoder is computed '
           'for a message with unknown field values and compared with the '
           'declared fields in order; each value may depend on its own '
           'field only.')
    for num, q, cls in w.kinds():
        x.ob(q, c05_kind, w, num, q, cls)


def slot_pairs(w, o):
    """[(name, value)] from the result of slots()"""
    v = o.frozen()
    if not isinstance(v, App) or v.op != 'list':
        w.fail(o, 'the encoded content is %s' % show(v))
    out = []
    for p in v.args:
        items = None
        if isinstance(p, Tup):
            items = p.items
        elif isinstance(p, App) and p.op == 'list':
            items = p.args
        if items is None or len(items) != 2 or not isinstance(items[0], C):
            if isinstance(p, Many):
                raise Undecided('the list of fields is not explicit')
            w.fail(o, 'an entry of the encoded content is %s' % show(p))
        out.append((items[0].v, items[1]))
    return out


def declared(w, cls):
    """names a class itself declares for the wire, in order"""
    st = w.e.state()
    r = w.e.cls_lookup(cls, '__slots__', st)
    names = None
    if r is not None:
        v = w.e.freeze(r[1], st)
        if isinstance(v, App) and v.op == 'list':
            names = [a.v for a in v.args if isinstance(a, C)]
        elif isinstance(v, Tup):
            names = [a.v for a in v.items if isinstance(a, C)]
    if names is None:
        raise Undecided('declared fields are not explicit')
    return [n for n in names if not n.startswith('_') and
            n not in ('header', 'sig')]


def typed(w, q, st, focus, name='M'):
    """Attributes for an open message: plain text in every field but one"""
    a = {}
    for f in R.FIELDS[q]:
        if f == focus:
            continue
        if f in R.NESTED_FIELDS.get(q, {}):
            kind, none, lst = R.NESTED_FIELDS[q][f]
            n = w.open_msg(w.cls(kind), '%s.%s' % (name, f), st)
            a[f] = w.e.new_list(st, [n]) if lst else n
        elif f in R.OBJECT_FIELDS.get(q, ()):
            a[f] = NONE if f.endswith('node_info') else w.e.new_list(st, [])
        else:
            a[f] = C('%s.%s' % (name, f))
    return a


def c05_kind(w, num, q, cls):
    decl = declared(w, cls)
    missing = [f for f in R.FIELDS[q] if f not in decl]
    if missing:
        raise Fail('%s no longer declares %s' % (q, missing))
    n = 0
    for focus in [None] + decl:
        st = w.e.state()
        m = w.open_msg(cls, 'M', st, num=num, opaque=False,
                       attrs=typed(w, q, st, focus))
        outs = [o for o in w.call(m, 'slots', [], st=st) if o.ok]
        if not outs:
            raise Fail('the fields of %s are never encoded' % q)
        for o in outs:
            n += 1
            c05_path(w, o, decl)
    return '%d fields, %d paths' % (len(decl), n)


def c05_path(w, o, decl):
    pairs = slot_pairs(w, o)
    names = [n for n, _ in pairs]
    if names != decl:
        w.fail(o, 'the fields written are %s, declared are %s' % (
            names, decl))
    for n, v in pairs:
        own = False
        for t in subterms(v):
            nm = t.name if isinstance(t, Sym) else \
                t.args[0] if isinstance(t, App) and t.op == 'obj' else ''
            if isinstance(nm, C):
                nm = nm.v
            if isinstance(t, C):
                nm = t.v
            if isinstance(nm, str) and nm.startswith('M.'):
                f = nm[2:].split('.')[0]
                own = own or f == n
                if f != n:
                    w.fail(o, 'the value written for %s is that of %s'
                           % (n, f))
        if not own and v != NONE and not (
                isinstance(v, App) and v.op == 'list' and not v.args) and \
                w.ask(o.st, 'is', Sym('M.' + n), NONE) != {True}:
            w.fail(o, 'the value written for %s is always %s' % (
                n, show(v)))


# ------------------------------------------------------------------ C07

@prop('C07')
def c07(x, w):
    x.rule('The term the signature is made over when dumping, and the term '
           'it is checked over when loading and when verifying directly, '
           'are compared for every kind with the digest of type, timestamp '
           'and complete payload.')

    def made(num, q):
        st = w.e.state()
        m = message(w, q, num, st)
        d = digest(C(num), Sym('M.ts', ['int']), content(w, m, st),
                   version_of(q))
        want = App('ecsign', App('privkey', PRIV), d, NONE)
        if policy(q)[1]:
            for o in oks(dumped(w, m, PRIV, NONE, st)):
                sig = split_frame(w, o, q, num)[1]
                if not same(sig, want):
                    w.fail(o, 'the signature is %s' % show(sig))
                for s, v in w.attr(m, 'sig', o.st):
                    if not same(w.e.freeze(v, s), want):
                        w.fail(o, 'the message keeps signature %s' % show(
                            w.e.freeze(v, s)))
        for o in oks(w.call(m, 'sign_message', [PRIV], st=st)):
            for s, v in w.attr(m, 'sig', o.st):
                if not same(w.e.freeze(v, s), want):
                    w.fail(o, 'signing makes %s' % show(w.e.freeze(v, s)))
    for num, q, cls in w.kinds():
        x.ob('made/' + q, made, num, q)

    def checked(num, q):
        if policy(q)[1]:
            ver = None
            if q == HELLO:
                ver = App('encode', 'ascii', 'replace', App(
                    'decode', 'ascii', 'replace',
                    App('upk', '32p', '', VER)))
            d = [digest(C(num), TS, PAYLOAD, ver)]
            if ver is not None:
                d.append(digest(C(num), TS, PAYLOAD,
                                App('upk', '32p', '', VER)))
            for o in oks(w.load(num, priv=NONE, pub=SENDER, flag=FALSE)):
                found = verified(o.st)
                # nested checks are of other messages
                mine = [v for v in found if v[1] == SIG]
                if not mine:
                    w.fail(o, 'the received signature is not checked')
                if w.truthy(o.st, PAYLOAD) == {False}:
                    continue        # no content at all
                if not any(same(v[2], k) for v in mine for k in d):
                    w.fail(o, 'the received signature is checked over %s'
                           % show(mine[0][2]))
        # as nested messages are
        st = w.e.state()
        m = message(w, q, num, st, OWNSIG)
        d = digest(C(num), Sym('M.ts', ['int']), content(w, m, st),
                   version_of(q))
        n = 0
        for o in oks(w.call(m, 'verify_signature', [SENDER], st=st)):
            n += 1
            if not any(same(v[2], d) and v[1] == OWNSIG and v[0] == SENDER
                       for v in verified(o.st)):
                w.fail(o, 'verifying the own signature checks %s' % [
                    show(v[2]) for v in verified(o.st)])
    for num, q, cls in w.kinds():
        x.ob('checked/' + q, checked, num, q)

    LATER = Sym('LATER', ['str'])

    def changed(num, q, f):
        """what is signed follows the fields, also after the digest was
        taken once"""
        st = w.e.state()
        a = typed(w, q, st, f)
        a[f] = Sym('BEFORE', ['str'])
        n = 0
        for o in w.run(w.cls(q), [], a, st=st):
            if not o.ok:
                continue
            for name, args in (('get_short_hash', []),
                               ('sign_message', [PRIV])):
                for o1 in oks(w.call(o.val, name, args, st=o.st)):
                    for s in w.set(o.val, f, LATER, o1.st):
                        for o2 in oks(w.call(o.val, name, args, st=s)):
                            n += 1
                            t = w.val(o.val, 'sig', o2.st) if args else \
                                w.e.freeze(o2.val, o2.st)
                            if LATER not in set(subterms(t)):
                                w.fail(o2, 'after %s was changed the digest '
                                       'is still %s' % (f, show(t)))
        return '%d digests' % n
    for num, q, cls in w.kinds():
        for f in R.FIELDS[q]:
            if f not in R.NESTED_FIELDS.get(q, {}) and \
                    f not in R.OBJECT_FIELDS.get(q, ()):
                x.ob('changed/%s.%s' % (q, f), changed, num, q, f)


# ------------------------------------------------------------------ C08

@prop('C08')
def c08(x, w):
    x.rule('Every path of loading a frame of a signed kind that returns a '
           'message while a sender is named must have established that the '
           'key recovered from the received signature equals that sender; '
           'the other paths raise library errors.')

    def kind(num, q):
        signed = policy(q)[1]
        n = 0
        outs = w.load(num, pub=SENDER, flag=FALSE) + \
            w.load(num, pub=SENDER, flag=TRUE)
        for o in oks(outs):
            n += 1
            known = [v for v in verified(o.st)
                     if v[0] == SENDER and v[1] == SIG]
            if signed and not known:
                w.fail(o, 'a message is returned although the sender '
                          'signature was not verified')
            if not signed and ops(App('f', *o.st.facts), 'recover'):
                if any(v[1] == SIG for v in verified(o.st)):
                    w.fail(o, 'an unsigned kind is verified')
        bad = 0
        for o in outs:
            if not o.ok and not w.is_lib_error(o):
                w.fail(o, 'raises %s' % o.exc_name)
            if not o.ok:
                for f, v in o.st.facts.items():
                    if v is False and isinstance(f, App) and \
                            f.op == 'eq' and SENDER in f.args:
                        bad += 1
        if signed and not bad:
            raise Fail('a wrong sender is not refused')
        return '%d of %d paths return' % (n, len(outs))
    for num, q, cls in w.kinds():
        x.ob(q, kind, num, q)

    def unchecked():
        """without a named sender nothing is verified against it"""
        for o in oks(w.load(1, priv=NONE, pub=NONE)):
            pass
    x.ob('no-sender', unchecked)


# ------------------------------------------------------------------ C10

def obj_attrs(w, ref, st):
    o = w.e.o(ref, st)
    return {k: w.e.freeze(v, st) for k, v in o.attrs.items()}


@prop('C10')
def c10(x, w):
    x.rule('Dumping an already signed message of every kind: with a key '
           'every path raises the dedicated error, without one the '
           'signature bytes written and kept are the old ones and type, '
           'time and fields are untouched. Nested messages are written '
           'with their own header and signature and rebuilt from the '
           'received ones.')

    def refuse(num, q):
        st = w.e.state()
        m = message(w, q, num, st, OWNSIG)
        for pub in (NONE, RCPT):
            outs = dumped(w, m, PRIV, pub, st)
            if not outs:
                raise Undecided('no outcome')
            for o in outs:
                if not is_exc(w, o, 'SignatureAlreadyExists'):
                    w.fail(o, 'signing a signed message ends in %s' % (
                        'success' if o.ok else o.exc_name))
                if w.val(m, 'sig', o.st) != OWNSIG:
                    w.fail(o, 'the refused message lost its signature')
    for num, q, cls in w.kinds():
        x.ob('refuse/' + q, refuse, num, q)

    def keep(num, q):
        for pub in (NONE, RCPT):
            st = w.e.state()
            m = message(w, q, num, st, OWNSIG)
            before = obj_attrs(w, m, st)
            for o in oks(dumped(w, m, NONE, pub, st)):
                sig = split_frame(w, o, q, num)[1]
                if sig != OWNSIG:
                    w.fail(o, 'the signature written is %s' % show(sig))
                after = obj_attrs(w, m, o.st)
                if after.get('sig') != OWNSIG:
                    w.fail(o, 'the signature kept is %s'
                           % show(after.get('sig')))
                h = w.val(m, 'header', o.st)
                if h.items[:2] != before['header'].items[:2]:
                    w.fail(o, 'type or time changed to %s' % show(h))
                for k, v in after.items():
                    if k in ('header', 'sig'):
                        continue
                    if k in before and before[k] != v or \
                            k not in before and not (
                                isinstance(v, Sym) and
                                v.name == 'M.' + k):
                        w.fail(o, 'dumping changed field %s' % k)
    for num, q, cls in w.kinds():
        x.ob('keep/' + q, keep, num, q)

    def nested_out(num, q, slot, kind, lst):
        st = w.e.state()
        inner = w.open_msg(w.cls(kind), 'N', st)
        val = w.e.new_list(st, [inner]) if lst else inner
        m = w.open_msg(w.cls(q), 'M', st, num=num, opaque=False,
                       attrs=dict(typed(w, q, st, slot), **{slot: val}))
        for o in w.call(m, 'slots', [], st=st):
            if not o.ok:
                continue
            v = dict(slot_pairs(w, o))[slot]
            one = nested_entry(w, o, v, lst)
            if len(one) != 3:
                w.fail(o, 'the nested message is written as %s' % show(v))
            h = w.val(inner, 'header', st)
            if one[0] != h or one[1] != w.val(inner, 'sig', st):
                w.fail(o, 'header or signature of the nested message are '
                          'written as %s, %s' % (show(one[0]),
                                                 show(one[1])))
            for k in ('header', 'sig'):
                if w.val(inner, k, o.st) != w.val(inner, k, st):
                    w.fail(o, 'dumping changed the nested %s' % k)
        return 'ok'

    def nested_in(num, q, slot, kind, lst):
        nh, ns, sl = Sym('NH', ['list']), App('input', 'NSIG', 65), Sym(
            'NSL', ['list'])
        for src, st, want_h, want_s in nested_wire(w, num, q, slot, kind,
                                                   lst):
            outs = w.build(num, src, st=st)
            n = 0
            for o in outs:
                if not o.ok:
                    continue
                for s, v in w.attr(o.val, slot, o.st):
                    for one in nested_objects(w, v, s, lst):
                        n += 1
                        h = w.val(one, 'header', s)
                        if not isinstance(h, NT) or \
                                list(h.items) != want_h:
                            w.fail(o, 'the nested header becomes %s'
                                   % show(h))
                        if w.val(one, 'sig', s) != want_s:
                            w.fail(o, 'the nested signature becomes %s'
                                   % show(w.val(one, 'sig', s)))
            if not n:
                raise Fail('a nested message is never accepted: %s' % sorted(
                    {str(o)[:300] for o in outs})[:3])
    for num, q, cls in w.kinds():
        for slot, (kind, none, lst) in sorted(
                R.NESTED_FIELDS.get(q, {}).items()):
            x.ob('nested-out/%s.%s' % (q, slot), nested_out, num, q, slot,
                 kind, lst)
            x.ob('nested-in/%s.%s' % (q, slot), nested_in, num, q, slot,
                 kind, lst)

    def copysign():
        for q in ('message.base:RandVal', 'message.tasks:TaskToCompute',
                  HELLO):
            num = [n for n, k in R.KINDS.items() if k == q][0]
            st = w.e.state()
            m = message(w, q, num, st, OWNSIG)
            for o in oks(w.run('utils:copy_and_sign', [m, PRIV], st=st)):
                if w.val(o.val, 'sig', o.st) != OWNSIG:
                    w.fail(o, 'a signed message is signed again')
                if w.val(m, 'sig', o.st) != OWNSIG:
                    w.fail(o, 'the original changed')
            st = w.e.state()
            m = w.open_msg(w.cls(q), 'M', st, num=num, attrs={'sig': NONE},
                           opaque=False)
            for o in oks(w.run('utils:copy_and_sign', [m, PRIV], st=st)):
                if o.val == m:
                    w.fail(o, 'the original itself is signed')
                if w.val(m, 'sig', o.st) != NONE:
                    w.fail(o, 'the original got a signature')
                sig = w.val(o.val, 'sig', o.st)
                if not (isinstance(sig, App) and sig.op == 'ecsign' and
                        sig.args[0] == App('privkey', PRIV)):
                    w.fail(o, 'the copy carries signature %s' % show(sig))
                h = w.val(o.val, 'header', o.st)
                if h.items[:2] != w.val(m, 'header', st).items[:2]:
                    w.fail(o, 'the copy has header %s' % show(h))
                for f in R.FIELDS[q]:
                    a, b = w.val(o.val, f, o.st), w.val(m, f, o.st)
                    if a != b:
                        w.fail(o, 'field %s of the copy is %s' % (
                            f, show(a)))
    x.ob('copy_and_sign', copysign)


def nested_entry(w, o, v, lst):
    """Parts of the (header, sig, slots) entry inside an encoded field"""
    def items(a):
        if isinstance(a, Tup):
            return list(a.items)
        if isinstance(a, NT):
            return list(a.items)
        if isinstance(a, App) and a.op == 'list':
            return list(a.args)
        return None
    out = items(v)
    if out is None or len(out) != 2:
        w.fail(o, 'a nested message is written as %s' % show(v))
    if w.truthy(o.st, out[0]) != {lst}:
        w.fail(o, 'a nested %s is marked %s' % (
            'list' if lst else 'message', show(out[0])))
    inner = out[1]
    if lst:
        more = items(inner)
        if more is None or len(more) != 1:
            w.fail(o, 'a list of one nested message is written as %s'
                   % show(inner))
        inner = more[0]
    one = items(inner)
    if one is None:
        w.fail(o, 'a nested message is written as %s' % show(inner))
    return one


def nested_wire(w, num, q, slot, kind, lst):
    """Well-formed received content holding one nested message:
    [(src, state, header items, sig)]"""
    st = w.e.state()
    e = w.e
    knum = [n for n, k in R.KINDS.items() if k == kind][0]
    hdr = [C(knum), Sym('NTS', ['int']), Sym('NENC', ['bool'])]
    sig = App('input', 'NSIG', 65)
    sl = Sym('NSL', ['list'])
    one = e.new_list(st, [e.new_list(st, hdr), sig, sl])
    val = e.new_list(st, [TRUE, e.new_list(st, [one])]) if lst else \
        e.new_list(st, [FALSE, one])
    src = e.new_list(st, [e.new_list(st, [C(slot), val])])
    return [(src, st, hdr, sig)]


def nested_objects(w, v, st, lst):
    if lst:
        if not isinstance(v, Ref) or w.e.o(v, st).kind != 'list':
            raise Fail('a list of nested messages becomes %s' % show(
                w.e.freeze(v, st)))
        return list(w.e.o(v, st).data)
    if not isinstance(v, Ref) or w.e.o(v, st).kind != 'inst':
        raise Fail('a nested message becomes %s' % show(w.e.freeze(v, st)))
    return [v]


# ------------------------------------------------------------------ C11

@prop('C11')
def c11(x, w):
    x.rule('For every kind the frame dumped with and without a signing and '
           'a recipient key: signature present exactly for signed kinds '
           'with a key (65 zero bytes otherwise), payload encrypted and '
           'flag set exactly for encrypted kinds with a recipient; every '
           'loading path decrypts exactly when the flag is set.')

    def dump(num, q):
        enc, sign = policy(q)
        n = 0
        for priv in (NONE, PRIV):
            for pub in (NONE, RCPT):
                for old in (None, FALSE, TRUE):
                    st = w.e.state()
                    m = message(w, q, num, st, enc=old)
                    plain = content(w, m, st)
                    for o in oks(dumped(w, m, priv, pub, st)):
                        n += 1
                        check_policy(w, o, q, num, m, plain,
                                     enc and pub != NONE,
                                     sign and priv != NONE)
        return '%d paths' % n
    for num, q, cls in w.kinds():
        x.ob('dump/' + q, dump, num, q)

    def load(num, q):
        enc, sign = policy(q)
        seen = set()
        for flag, o in [(True, o) for o in w.load(
                num, pub=SENDER, flag=TRUE)] + [(False, o) for o in w.load(
                    num, pub=SENDER, flag=FALSE)]:
            t = {f for k in o.st.facts for f in ops(k, 'cborload')}
            if not t and not o.ok:
                continue
            for a in t:
                if not flag and a.args[0] != PAYLOAD:
                    w.fail(o, 'an unencrypted payload is decoded as %s'
                           % show(a.args[0]))
                if flag and not (isinstance(a.args[0], App) and
                                 a.args[0].op == 'crypt' and
                                 a.args[0].args[0] == C(0)):
                    w.fail(o, 'an encrypted payload is decoded as %s'
                           % show(a.args[0]))
            seen.add(flag)
            if not sign and any(v[1] == SIG for v in verified(o.st)):
                w.fail(o, 'the signature of an unsigned kind is checked')
        if seen != {True, False}:
            raise Fail('frames with flag %s are never decoded' % (
                {True, False} - seen))
    for num, q, cls in w.kinds():
        x.ob('load/' + q, load, num, q)


def check_policy(w, o, q, num, m, plain, enc, sign):
    flag, sig, rest = split_frame(w, o, q, num)
    if flag != enc:
        w.fail(o, 'the encryption flag is %s' % flag)
    h = w.val(m, 'header', o.st)
    if w.truthy(o.st, h.items[2]) != {enc}:
        w.fail(o, 'the header of the message says encrypted=%s'
               % show(h.items[2]))
    if not sign and sig != ZERO:
        w.fail(o, 'what is not signed carries signature %s' % show(sig))
    if sign and not (isinstance(sig, App) and sig.op == 'ecsign' and
                     sig.args[0] == App('privkey', PRIV)):
        w.fail(o, 'the signature is %s' % show(sig))
    if not enc:
        if len(rest) != 1 or not same(rest[0], plain):
            w.fail(o, 'the payload is %s' % show(cat(*rest)))
        if ops(o.frozen(), 'crypt'):
            w.fail(o, 'an unencrypted frame contains ciphertext')
        return
    body = cat(*rest)

    def visible(t):
        if t == plain:
            return True
        if isinstance(t, App) and t.op in ('crypt', 'hmac', 'ecsign'):
            return False
        if isinstance(t, App):
            return any(visible(a) for a in t.args)
        return False
    if visible(body):
        w.fail(o, 'a frame marked encrypted contains the plain payload')
    ct = [t for t in ops(body, 'crypt') if t.args[0] == C(1) and
          same(t.args[4], plain)]
    if not ct:
        w.fail(o, 'the encrypted payload is %s' % show(body))
    if not any(RCPT in list(subterms(t.args[1])) for t in ct):
        w.fail(o, 'the payload is not encrypted for the recipient')


# ------------------------------------------------------------------ C15

def age(w, st):
    """(lo, lo_strict, hi, hi_strict) of now - TS in seconds"""
    f = lin_add(lin_of(NOW), lin_scale(lin_of(TS), -1))
    return w.e.bounds(f[1], f[2], st)


@prop('C15')
def c15(x, w):
    x.rule('Bounds of (receiver clock - timestamp) on every path of the '
           'time check and of loading each kind: returning paths imply '
           '-300 <= age <= 600, too-old errors imply age > 600, '
           'from-the-future errors imply age < -300, so the limits are '
           'exact; without time checking no path bounds the age.')
    x.assume('the clock is the UTC time in seconds')

    def part(o, what, checked=True):
        lo, ls, hi, hs = age(w, o.st)
        if o.ok:
            if lo is None or hi is None or lo < -300 or hi > 600:
                w.fail(o, '%s accepts ages %s to %s seconds' % (
                    what, lo, hi))
            if (lo, ls, hi, hs) != (-300, False, 600, False):
                w.fail(o, '%s accepts only ages from %s%s to %s%s' % (
                    what, lo, ' (excluded)' if ls else '', hi,
                    ' (excluded)' if hs else ''))
        elif is_exc(w, o, 'MessageTooOldError'):
            if lo is None or lo < 600 or not (ls or lo > 600):
                w.fail(o, '%s calls ages from %s too old' % (what, lo))
        elif is_exc(w, o, 'MessageFromFutureError'):
            if hi is None or hi > -300 or not (hs or hi < -300):
                w.fail(o, '%s calls ages up to %s from the future' % (
                    what, hi))
        elif any(isinstance(f, App) and f.op == 'raises' and v is True
                 and ops(f, 'fromts') for f, v in o.st.facts.items()):
            if not is_exc(w, o, 'TimestampError'):
                w.fail(o, 'a timestamp denoting no time raises %s'
                       % o.exc_name)

    def verify():
        outs = w.run('message.base:verify_time', [TS], implicit='all')
        oks(outs)
        kinds = set()
        for o in outs:
            part(o, 'the time check')
            kinds.add('ok' if o.ok else o.exc_name)
        for want in ('ok', 'MessageTooOldError', 'MessageFromFutureError',
                     'TimestampError'):
            if want not in kinds:
                raise Fail('the time check never ends in %s' % want)
        return '%d paths' % len(outs)
    x.ob('verify_time', verify)

    def load(num, q):
        outs = w.load(num, priv=NONE, pub=NONE)
        oks(outs)
        names = set()
        for o in outs:
            names.add(o.exc_name if not o.ok else 'ok')
            part(o, 'loading')
            if not o.ok and not is_exc(w, o, 'MessageTooOldError') and \
                    not is_exc(w, o, 'MessageFromFutureError') and any(
                        ops(f, 'cborload') for f in o.st.facts):
                lo, _, hi, _ = age(w, o.st)
                if lo is None or hi is None or lo < -300 or hi > 600:
                    w.fail(o, 'the payload is decoded before the time '
                              'check')
        if not {'MessageTooOldError', 'MessageFromFutureError'} <= names:
            raise Fail('old or future messages of kind %s are not refused'
                       % q)
    for num, q, cls in w.kinds():
        x.ob('load/' + q, load, num, q)

    def off(num, q):
        outs = w.load(num, priv=NONE, pub=NONE, check_time=FALSE)
        for o in oks(outs):
            lo, _, hi, _ = age(w, o.st)
            if lo is not None or hi is not None:
                w.fail(o, 'the age is limited although time checking is '
                          'off')
        for o in outs:
            if not o.ok and is_exc(w, o, 'TimestampError'):
                w.fail(o, 'the time is checked although it is off')
    for num, q in ((1, 'message.base:RandVal'), (0, HELLO),
                   (2004, 'message.tasks:ReportComputedTask')):
        x.ob('off/' + q, off, num, q)

    def on(num, q):
        outs = w.load(num, priv=NONE, pub=NONE, check_time=TRUE)
        for o in outs:
            part(o, 'loading with time checking on')
    x.ob('on', on, 1, 'message.base:RandVal')


# ------------------------------------------------------------------ C16

@prop('C16')
def c16(x, w):
    x.rule('Every path of reading arbitrary bytes: a path that decrypts or '
           'decodes anything must imply more than 76 bytes of input, a '
           'timestamp strictly inside the years 2010 to 3010 and a '
           'registered type number; refusals are library errors.')
    import calendar
    lo_ts = calendar.timegm((2010, 1, 1, 0, 0, 0))
    hi_ts = calendar.timegm((3010, 1, 1, 0, 0, 0))
    ANY = Sym('ANY', ['bytes'])
    fwd, bwd = w.registry()

    def touches(o):
        return any(ops(f, 'cborload') for f in o.st.facts) or any(
            ev[0] == 'crypt' for ev in o.st.ev) or o.ok

    def short():
        """too short input, whatever its header says"""
        for n in (0, 1, 10, 11, 75, 76):
            data = App('input', 'SHORT', n) if n else C(b'')
            outs = w.run('shortcuts:load', [data, PRIV, SENDER])
            if not outs:
                raise Undecided('no outcome')
            for o in outs:
                if o.ok or touches(o):
                    w.fail(o, 'input of %d bytes is decoded' % n)
                if not w.is_lib_error(o):
                    w.fail(o, 'input of %d bytes raises %s' % (
                        n, o.exc_name))
        for o in w.run('shortcuts:load', [NONE, PRIV, SENDER]):
            if o.ok or not w.is_lib_error(o):
                w.fail(o, 'no input at all ends in %s' % (
                    'success' if o.ok else o.exc_name))
    x.ob('short', short)

    def least():
        """77 bytes are enough to be looked at"""
        data = cat(C(b'\0\1'), App('pk', 'u8', '>', TS), C(b'\0'), SIG,
                   App('input', 'ONE', 1))
        outs = w.run('shortcuts:load', [data, NONE, NONE])
        if not any(touches(o) for o in outs):
            raise Fail('input with a one-byte payload is refused: %s'
                       % outs[0])
    x.ob('least', least)

    def window(num, q):
        inside = 0
        outs = w.load(num, priv=NONE, pub=NONE, check_time=FALSE)
        f = lin_of(TS)
        refused = set()
        for o in outs:
            lo, ls, hi, hs = w.e.bounds(f[1], f[2], o.st)
            if touches(o):
                if lo is None or hi is None or \
                        lo < lo_ts or (lo == lo_ts and not ls) or \
                        hi > hi_ts or (hi == hi_ts and not hs):
                    w.fail(o, 'timestamps from %s to %s are decoded' % (
                        lo, hi))
                inside += 1
                if (lo, ls) not in ((lo_ts, True), (lo_ts + 1, False)) or \
                        (hi, hs) not in ((hi_ts, True),
                                         (hi_ts - 1, False)):
                    w.fail(o, 'only timestamps from %s to %s are accepted'
                           % (lo, hi))
            elif lo is not None or hi is not None:
                if not w.is_lib_error(o):
                    w.fail(o, 'an impossible timestamp raises %s'
                           % o.exc_name)
                if not is_exc(w, o, 'HeaderError') and not is_exc(
                        w, o, 'MessageError'):
                    w.fail(o, 'raises %s' % o.exc_name)
        if not inside:
            raise Fail('no timestamp is accepted')
    for num, q, cls in w.kinds():
        x.ob('timestamp/' + q, window, num, q)

    def unknown(num):
        data = cat(C(num.to_bytes(2, 'big')), App('pk', 'u8', '>', TS),
                   C(b'\0'), SIG, PAYLOAD)
        outs = w.run('shortcuts:load', [data, NONE, NONE])
        if not outs:
            raise Undecided('no outcome')
        for o in outs:
            if touches(o):
                w.fail(o, 'unknown type %d is decoded' % num)
            if not w.is_lib_error(o):
                w.fail(o, 'unknown type %d raises %s' % (num, o.exc_name))
    gaps = [n for n in range(65536) if n not in fwd]
    edge = sorted({g for g in gaps if g - 1 in fwd or g + 1 in fwd} |
                  {65535, 256, 4, 3000, 2000, 1000, 4002})
    x.ob('unknown-type/edges', lambda: [unknown(n) for n in edge
                                        if n not in fwd] and
         '%d numbers' % len(edge))

    def symbolic():
        """any number: what is decoded is of a registered class"""
        num = Sym('TYPE', ['int'])
        data = cat(App('pk', 'u2', '>', num), App('pk', 'u8', '>', TS),
                   C(b'\0'), SIG, PAYLOAD)
        st = w.e.state()
        hit = set()

        def stop(f, args, kws, st, n, fr):
            h = args[0] if args else kws.get('header')
            owner = f.k[1]
            hit.add(owner)
            return [(st, App('loaded', owner))]
        w.stops['deserialize_with_header'] = stop
        big, at = w.e.BIG, w.e.JOIN_AT
        w.e.BIG = w.e.JOIN_AT = 1000
        try:
            outs = w.run('shortcuts:load', [data, NONE, NONE], st=st)
        finally:
            del w.stops['deserialize_with_header']
            w.e.BIG, w.e.JOIN_AT = big, at
        n = 0
        for o in outs:
            if not o.ok:
                if not w.is_lib_error(o):
                    w.fail(o, 'raises %s' % o.exc_name)
                continue
            n += 1
            cls = o.val.args[0] if isinstance(o.val, App) and \
                o.val.op == 'loaded' else None
            if cls not in bwd:
                w.fail(o, 'decodes with %s' % show(o.val))
            if not w.proves(o.st, '==', num, C(bwd[cls])):
                w.fail(o, 'decodes any type as %s' % w.name(cls))
        if not n:
            raise Undecided('no outcome')
        return '%d kinds' % n
    x.ob('unknown-type/any', symbolic)

    def header_bytes():
        outs = w.run('shortcuts:load', [ANY, PRIV, SENDER])
        for o in outs:
            if not o.ok and not w.is_lib_error(o):
                w.fail(o, 'arbitrary input raises %s' % o.exc_name)
        return '%d paths' % len(outs)
    x.ob('any-bytes', header_bytes)


# ------------------------------------------------------------------ C38

def ver_eval(t, env):
    """Value of a version term for sample versions, or raise Undecided"""
    t = norm(t)
    if isinstance(t, str):
        return t
    if isinstance(t, C):
        return t.v
    if isinstance(t, Sym) and t.name == 'own_version':
        return env['ours']
    if isinstance(t, App):
        if t in env:
            return env[t]
        if t.op == 'version':
            a = t.args[0]
            if norm(a) in env:
                return env[norm(a)]
            return ver_eval(a, env)
        if t.op == 'attr':
            v = ver_eval(t.args[0], env)
            i = {'major': 0, 'minor': 1, 'patch': 2}.get(t.args[1])
            if i is None:
                raise Undecided('version attribute %s' % t.args[1])
            return v[i]
        if t.op == 'str':
            v = ver_eval(t.args[0], env)
            return v if isinstance(v, str) else (
                '.'.join(map(str, v)) if isinstance(v, tuple) else str(v))
        if t.op == 'cat':
            return ''.join(str(ver_eval(a, env)) for a in t.args)
        if t.op == 'lin':
            tot = t.args[2]
            for a, c in t.args[1]:
                tot += c * ver_eval(a, env)
            return int(tot)
        if t.op == 'call' and isinstance(t.args[0], App) and \
                t.args[0].op == 'attr':
            M, m, p = ver_eval(t.args[0].args[0], env)
            nm = {'next_minor': (M, m + 1, 0),
                  'next_major': (M + 1, 0, 0),
                  'next_patch': (M, m, p + 1)}
            if t.args[0].args[1] in nm:
                return nm[t.args[0].args[1]]
    raise Undecided('version term %s' % show(t))


def in_spec(v, text):
    import re
    for clause in text.replace(' ', '').split(','):
        m = re.match(r'^(==|>=|<=|!=|~=|>|<|=|\^|~)?(\d+)(?:\.(\d+))?'
                     r'(?:\.(\d+))?$', clause)
        if not m:
            raise Undecided('version specification %r' % text)
        op = m.group(1) or '=='
        parts = [int(g) for g in m.groups()[1:] if g is not None]
        k = len(parts)
        full = tuple(parts + [0] * (3 - k))
        cut = v[:k]
        if op in ('==', '='):
            ok = cut == tuple(parts)
        elif op == '!=':
            ok = cut != tuple(parts)
        elif op == '>=':
            ok = v >= full
        elif op == '<':
            ok = v < full
        elif op == '>':
            ok = cut > tuple(parts) if k < 3 else v > full
        elif op == '<=':
            ok = cut <= tuple(parts) if k < 3 else v <= full
        elif op == '^':
            i = 0 if full[0] else 1 if full[1] else 2
            ok = v >= full and v[:i + 1] == full[:i + 1]
        elif op in ('~', '~='):
            i = max(k - 1, 1) if op == '~=' else min(k, 2)
            ok = v >= full and v[:i] == full[:i]
        if not ok:
            return False
    return True


def ver_path(w, o, env):
    """Can this path be taken when the versions are the samples?"""
    for f, val in o.st.facts.items():
        if not isinstance(f, App):
            continue
        txt = [t for t in subterms(f) if isinstance(t, App) and
               t.op in ('version', 'spec')]
        if not txt or f.op == 'raises':
            if f.op == 'raises' and txt and val is True:
                return False     # samples are readable
            continue
        if f.op == 'in':
            s = f.args[1]
            if isinstance(s, App) and s.op == 'spec':
                r = in_spec(ver_eval(f.args[0], env),
                            ver_eval(s.args[0], env))
            elif isinstance(s, Tup):
                r = ver_eval(f.args[0], env) in [ver_eval(a, env)
                                                 for a in s.items]
            else:
                raise Undecided('version test %s' % show(f))
        elif f.op == 'eq':
            r = ver_eval(f.args[0], env) == ver_eval(f.args[1], env)
        elif f.op == 'lt':
            r = ver_eval(f.args[0], env) < ver_eval(f.args[1], env)
        elif f.op == 'eqlin':
            tot = sum(c * ver_eval(a, env) for a, c in f.args[0])
            r = tot == f.args[1]
        else:
            raise Undecided('version test %s' % show(f))
        if r != val:
            return False
    for vec, (lo, ls, hi, hs) in o.st.iv.items():
        if not any(isinstance(t, App) and ops(t, 'version')
                   for t, _ in vec):
            continue
        tot = sum(c * ver_eval(a, env) for a, c in vec)
        if lo is not None and (tot < lo or tot == lo and ls):
            return False
        if hi is not None and (tot > hi or tot == hi and hs):
            return False
    return True


@prop('C38')
def c38(x, w):
    x.rule('The conditions on the announced version along every path of '
           'loading a greeting are evaluated for all orderings of major, '
           'minor and patch numbers relative to ours; exactly the versions '
           'with equal major and minor number may reach a returning path, '
           'all others must end in a version mismatch before anything is '
           'decrypted or decoded. The version written, restored and signed '
           'is compared as a term.')
    x.assume('versions with pre-release or build tags are ordered as '
             'semantic_version does; they are not constrained here')
    field = norm(App('upk', '32p', '', VER))

    def announced(outs, theirs):
        """The ways in which the paths read the announced version"""
        return {theirs} | {
            d for o in outs for f in o.st.facts if isinstance(f, App)
            for d in ops(f, 'decode') if norm(d.args[2]) == field}
    theirs = norm(App('decode', 'ascii', 'replace', field))

    def judge(outs, theirs, what):
        n = 0
        texts = announced(outs, theirs)
        for ours in ((2, 3, 4), (1, 0, 0), (3, 1, 2), (0, 5, 1)):
            cand = set()
            for dM in (-1, 0, 1):
                for dm in (-2, -1, 0, 1, 2):
                    for p in (0, ours[2], ours[2] + 1, 99):
                        v = (ours[0] + dM, ours[1] + dm, p)
                        if min(v) >= 0:
                            cand.add(v)
            for v in sorted(cand):
                env = {'ours': ours}
                for t in texts:
                    env[t] = env[norm(t)] = v
                want = v[:2] == ours[:2]
                for o in outs:
                    if not ver_path(w, o, env):
                        continue
                    n += 1
                    seen = o.ok or any(ops(f, 'cborload')
                                       for f in o.st.facts) or any(
                        ev[0] == 'crypt' for ev in o.st.ev)
                    mism = is_exc(w, o, 'VersionMismatchError')
                    if not want and seen:
                        w.fail(o, '%s: version %s is accepted by %s' % (
                            what, '.'.join(map(str, v)),
                            '.'.join(map(str, ours))))
                    if want and mism:
                        w.fail(o, '%s: version %s is refused by %s' % (
                            what, '.'.join(map(str, v)),
                            '.'.join(map(str, ours))))
        return n

    def window():
        outs = w.load(0)
        n = judge(outs, theirs, 'loading')
        if not any(is_exc(w, o, 'VersionMismatchError') for o in outs):
            raise Fail('no version is refused')
        return '%d path/version pairs' % n
    x.ob('accepted-versions', window)

    def direct():
        v = Sym('VERSIONTEXT', ['str'])
        outs = w.run('message.base:verify_version', [v])
        judge(outs, v, 'the version check')
        for o in outs:
            if not o.ok and not is_exc(w, o, 'VersionMismatchError'):
                w.fail(o, 'raises %s' % o.exc_name)
    x.ob('verify_version', direct)

    def unreadable():
        outs = w.load(0, implicit='all')
        n = 0
        for o in outs:
            for f, v in o.st.facts.items():
                if isinstance(f, App) and f.op == 'raises' and v is True \
                        and isinstance(f.args[1], App) and (
                            f.args[1].op == 'version' or
                            f.args[1].op in ('decode', 'upk') and
                            VER in set(subterms(f.args[1]))):
                    n += 1
                    if not is_exc(w, o, 'VersionMismatchError'):
                        w.fail(o, 'an unreadable version raises %s'
                               % o.exc_name)
        if not n:
            raise Fail('unreadable versions are not considered')
        data = cat(C(b'\0\0'), App('pk', 'u8', '>', TS), C(b'\0'), SIG,
                   App('input', 'STUB', 3))
        short = cat(C(b'\0\0'), App('pk', 'u8', '>', TS), C(b'\0'),
                    App('input', 'FEW', 20))
        for o in w.run('shortcuts:load', [data, NONE, NONE]):
            if not o.ok and not w.is_lib_error(o):
                w.fail(o, 'a greeting with a cut version raises %s'
                       % o.exc_name)
    x.ob('unreadable', unreadable)

    def written():
        st = w.e.state()
        m = message(w, HELLO, 0, st)
        for o in oks(dumped(w, m, PRIV, NONE, st)):
            split_frame(w, o, HELLO, 0)
            sig = split_frame(w, o, HELLO, 0)[1]
            if not any(same(t, version_of(HELLO)) for t in subterms(sig)):
                w.fail(o, 'the version is not part of what is signed')
    x.ob('written-and-signed', written)

    def own():
        for o in oks(w.run(w.cls(HELLO), [], {})):
            v = w.val(o.val, '_version', o.st)
            if not (isinstance(v, Sym) and v.name == 'own_version'):
                w.fail(o, 'a new greeting announces %s' % show(v))
    x.ob('own', own)

    def restored():
        for o in oks(w.load(0, priv=NONE, pub=NONE)):
            check_loaded(w, o, 0, HELLO, TS, FLAG, SIG, {PAYLOAD}, VER)
    x.ob('restored', restored)


# ------------------------------------------------------------------ C39

@prop('C39')
def c39(x, w):
    x.rule('All paths of comparing two messages of a kind: a true result '
           'implies equal type, time, signature and fields (and version); '
           'a false result implies that one of them differs; the '
           'encryption flag occurs in no condition.')

    def kind(num, q):
        st = w.e.state()
        a = w.open_msg(w.cls(q), 'A', st)
        b = w.open_msg(w.cls(q), 'B', st)
        pairs = [('type', Sym('A.type', ['int']), Sym('B.type', ['int'])),
                 ('timestamp', Sym('A.ts', ['int']), Sym('B.ts', ['int'])),
                 ('signature', w.val(a, 'sig', st), w.val(b, 'sig', st)),
                 ('fields', App('slots', w.e.freeze(a, st)),
                  App('slots', w.e.freeze(b, st)))]
        if q == HELLO:
            pairs.append(('version', Sym('A._version'), Sym('B._version')))
        outs = w.call(a, '__eq__', [b], st=st)
        res = {True: 0, False: 0}
        for o in outs:
            if not o.ok:
                w.fail(o, 'comparing raises %s' % o.exc_name)
            for s in [o.st]:
                for t in w.truthy(s, o.val):
                    res[t] += 1
                    eqs = [w.ask(s, '==', p, r) for _, p, r in pairs]
                    if t:
                        for (nm, _, _), r in zip(pairs, eqs):
                            if r != {True}:
                                w.fail(o, 'messages that may differ in %s '
                                          'are equal' % nm)
                    elif {False} not in eqs:
                        w.fail(o, 'messages are different although type, '
                                  'time, signature and fields may agree')
            for f in o.st.facts:
                for t in subterms(f):
                    if isinstance(t, Sym) and t.name.endswith('.enc'):
                        w.fail(o, 'the encryption flag is compared')
        if not res[True] or not res[False]:
            raise Fail('comparing always gives %s' % (not res[False]))
        return '%d paths' % len(outs)
    for num, q, cls in w.kinds():
        x.ob(q, kind, num, q)

    def other(num, q):
        """a message of another class is never equal"""
        st = w.e.state()
        a = w.open_msg(w.cls(q), 'A', st)
        k = 'message.base:ChallengeSolution' \
            if q != 'message.base:ChallengeSolution' \
            else 'message.base:RandVal'
        b = w.open_msg(w.cls(k), 'B', st)
        for o in w.call(a, '__eq__', [b], st=st):
            if not o.ok:
                w.fail(o, 'comparing kinds raises %s' % o.exc_name)
            if True in w.truthy(o.st, o.val):
                w.fail(o, 'messages of different kinds are equal')
    for num, q, cls in w.kinds():
        x.ob('other/' + q, other, num, q)


# ------------------------------------------------------------------ C43

@prop('C43')
def c43(x, w):
    x.rule('For every kind: creating it with an undeclared name and '
           'assigning one raise attribute errors on all paths; every '
           'declared field given at creation reads back as given.')

    def kind(num, q):
        cls = w.cls(q)
        for name in ('no_such_field', 'sigg', 'task_idd'):
            outs = w.run(cls, [], {name: Sym('V')})
            if not outs:
                raise Undecided('no outcome')
            for o in outs:
                if o.ok or o.exc_name != 'AttributeError':
                    w.fail(o, 'an unknown field name ends in %s' % (
                        'success' if o.ok else o.exc_name))
        st = w.e.state()
        m = w.open_msg(cls, 'M', st, num=num)
        outs = w.run('setattr' if False else Ext_setattr(),
                     [m, C('no_such_field'), Sym('V')], st=st)
        if not outs:
            raise Undecided('no outcome')
        for o in outs:
            if o.ok or o.exc_name != 'AttributeError':
                w.fail(o, 'an undeclared attribute can be set')
    for num, q, cls in w.kinds():
        x.ob('closed/' + q, kind, num, q)

    def given(num, q):
        cls = w.cls(q)
        n = 0
        for f in R.FIELDS[q]:
            v = Sym('GIVEN', ['object'])
            outs = w.run(cls, [], {f: v})
            for o in oks(outs, 'message with %s given' % f):
                n += 1
                got = w.val(o.val, f, o.st)
                if got == v:
                    continue
                if f in R.OWN_VALUES.get(q, ()) and \
                        w.truthy(o.st, got) == w.truthy(o.st, v):
                    continue
                if w.truthy(o.st, v) == {False} and \
                        got == App('list'):
                    continue        # an absent list becomes an empty one
                w.fail(o, 'field %s given at creation reads back as %s' % (
                    f, show(got)))
        return '%d fields' % n
    for num, q, cls in w.kinds():
        x.ob('given/' + q, given, num, q)


def Ext_setattr():
    from ..dom import Ext
    return Ext('builtins.setattr')


# ------------------------------------------------------------------ C47

@prop('C47')
def c47(x, w):
    x.rule('Both paths (result, any failure) of the encoder and decoder '
           'wrappers; every use of the codec in the library is a call '
           'through them (all name resolutions in the source).')
    V = Sym('VALUE')

    def side(name, op):
        outs = w.run('serializer:' + name, [V], implicit='all')
        good = bad = 0
        for o in outs:
            if o.ok:
                good += 1
                if o.frozen() != App(op, V):
                    w.fail(o, '%s gives %s' % (name, show(o.frozen())))
            else:
                bad += 1
                if not is_exc(w, o, 'SerializationError'):
                    w.fail(o, 'a failure of %s raises %s' % (
                        name, o.exc_name))
                c = o.exc.attrs.get('__cause__', NONE)
                if c == NONE or c is None:
                    w.fail(o, 'the error of %s has no cause' % name)
        if not good or not bad:
            raise Fail('%s never %s' % (name, 'fails' if good
                                        else 'succeeds'))
    x.ob('dumps', side, 'dumps', 'cbor')
    x.ob('loads', side, 'loads', 'cborload')

    def cause():
        for name in ('dumps', 'loads'):
            for o in w.run('serializer:' + name, [V], implicit='all'):
                if o.ok:
                    continue
                c = o.exc.attrs.get('__cause__')
                if isinstance(c, Ref):
                    ct = w.e.o(c, o.st)
                    if ct.kind != 'exc':
                        w.fail(o, 'the cause is %s' % show(
                            w.e.freeze(c, o.st)))
    x.ob('cause', cause)

    def only():
        import ast
        n = 0
        for mod, tree in sorted(w.e.modtree.items()):
            for node in ast.walk(tree):
                names = []
                if isinstance(node, ast.Import):
                    names = [a.name for a in node.names]
                elif isinstance(node, ast.ImportFrom) and node.module:
                    names = [node.module] + [
                        node.module + '.' + a.name for a in node.names]
                for nm in names:
                    n += 1
                    top = nm.split('.')[0]
                    if top in ('cbor', 'cbor2', 'pickle', 'marshal') and \
                            not mod.endswith('.serializer'):
                        raise Fail('%s uses the codec %s directly' % (
                            mod, nm), '%s:%s' % (mod, node.lineno))
        return '%d imports' % n
    x.ob('only-through-wrapper', only)


# ------------------------------------------------------------------ C53

@prop('C53')
def c53(x, w):
    x.rule('Making a message of every kind without a header, with a header '
           'and signature, and with both received and given values.')

    def fresh(num, q):
        cls = w.cls(q)
        for o in oks(w.run(cls, [], {})):
            h = w.val(o.val, 'header', o.st)
            if not isinstance(h, NT):
                w.fail(o, 'the header is %s' % show(h))
            if not w.proves(o.st, '==', h.items[0], C(num)):
                w.fail(o, 'the type of a new message is %s'
                       % show(h.items[0]))
            if h.items[2] != FALSE:
                w.fail(o, 'a new message is marked encrypted: %s'
                       % show(h.items[2]))
            if not is_now(h.items[1]):
                w.fail(o, 'the time of a new message is %s'
                       % show(h.items[1]))
            if w.val(o.val, 'sig', o.st) != NONE:
                w.fail(o, 'a new message is signed')
    for num, q, cls in w.kinds():
        x.ob('new/' + q, fresh, num, q)

    def given(num, q):
        cls = w.cls(q)
        h = w.header('H')
        for o in oks(w.run(cls, [], {'header': h, 'sig': OWNSIG})):
            if w.val(o.val, 'header', o.st) != h:
                w.fail(o, 'a given header becomes %s' % show(
                    w.val(o.val, 'header', o.st)))
            if w.val(o.val, 'sig', o.st) != OWNSIG:
                w.fail(o, 'a given signature becomes %s' % show(
                    w.val(o.val, 'sig', o.st)))
    for num, q, cls in w.kinds():
        x.ob('given/' + q, given, num, q)

    def precedence(num, q):
        """a received value wins over an argument; an argument fills what
        was not received"""
        f = [f for f in R.FIELDS[q] if f not in R.ENUM_FIELDS.get(q, {})
             and f not in R.NESTED_FIELDS.get(q, {})
             and f not in R.OWN_VALUES.get(q, ())]
        n = 0
        for name in f:
            rec, arg = C('received'), C('argument')
            st = w.e.state()
            src = w.e.new_list(st, [w.e.new_list(st, [C(name), rec])])
            for o in w.build(num, src, st=st, **{name: arg}):
                if not o.ok:
                    continue
                n += 1
                if w.val(o.val, name, o.st) == arg:
                    w.fail(o, 'the argument wins over the received %s'
                           % name)
            st = w.e.state()
            src = w.e.new_list(st, [])
            for o in oks(w.build(num, src, st=st, **{name: arg})):
                n += 1
                if w.val(o.val, name, o.st) != arg:
                    w.fail(o, 'the argument for %s is lost' % name)
        return '%d paths' % n
    for num, q, cls in w.kinds():
        x.ob('precedence/' + q, precedence, num, q)


def is_now(v):
    """the current time cut to whole seconds"""
    if not isinstance(v, App):
        return False
    if v.op in ('int', 'floor', 'trunc', 'round') and len(v.args) == 1:
        return v.args[0] == NOW or is_now(v.args[0])
    if v.op == 'lin' and v.args[0] == 'num' and not v.args[2]:
        return len(v.args[1]) == 1 and v.args[1][0][1] == 1 and \
            is_now(v.args[1][0][0])
    if v.op == 'floordiv':
        return v.args[1] == C(1) and v.args[0] == NOW
    return False

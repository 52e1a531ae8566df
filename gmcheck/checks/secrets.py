"""The rule that private keys stay where they are put."""
from . import prop
from .common import *  # noqa: F401,F403
from .common import (
    App, C, Cls, Fail, Fn, NONE, NT, R, Ref, Sym, Tup, Undecided, show)
from ..dom import Bound, Many, Partial, Val
from ..engine import AnalysisError
from ..world import PRIV, PUB
from .crypto import ecies, keyobj
from .data import make_container, some
from .frame import message
from .tasks import TTC, deep

SEED = Sym('SEED', ['str'])
# what somebody passes as a key, whatever its length or type
LOOSE = Sym('LOOSEKEY', ['bytes', 'str'])
DATA = Sym('DATA', ['bytes'])
SMD = Sym('SMD', ['bytes'])
FULL = App('input', 'RECIPIENT', 64)
CONTRACT = App('checksum', App('input', 'CONTRACT', 20))
HEADER = 'datastructures.tasks:TaskHeader'
NOTE = 'datastructures.promissory:PromissoryNote'
SRV = 'message.concents:SubtaskResultsVerify'

# what says nothing usable about its operands
ONEWAY = {'pubkey', 'pubkeyobj', 'ecsign', 'ethsign', 'privformat', 'len',
          'truth', 'eq', 'lt', 'eqlin', 'isinst', 'class', 'id', 'ip',
          'raises', 'hasattr', 'unset', 'exc', 'hash', 'mapping', 'callable',
          'keycheck'}
DIGESTS = {'sha1', 'sha256', 'sha512', 'sha3_256', 'keccak256', 'hmac',
           'md5'}
UNKNOWN = {'call', 'mcall', 'extcall', 'top', 'attr', 'apply'}
# methods and attributes of the key class that give the key away
REVEALS = {'secret', 'to_hex', 'to_int', 'to_pem', 'to_der', 'hex',
           '_raw_key'}
SINKS = ('sys.stdout', 'sys.stderr', 'logging', 'syslog', 'traceback',
         'os.write', 'sys.__stdout__', 'sys.__stderr__', 'sys.exit',
         'warnings')
KEYWORDS = ('priv', 'sign_as', 'secret')


def is_secret(v):
    """Is the term itself a private key (or a secret agreed with one)?"""
    if v in (PRIV, LOOSE, SEED):
        return True
    if not isinstance(v, App):
        return False
    if v.op == 'fresh' and v.k[-1] in ('ecckey', C('ecckey'), 'key',
                                       C('key')):
        return True
    return v.op == 'ecdh'


def agreed(v):
    """Does a shared secret occur in the term?"""
    if isinstance(v, App) and v.op == 'ecdh' or v == SEED:
        return True
    if isinstance(v, Val):
        return any(agreed(a) for a in v.k)
    if isinstance(v, (tuple, frozenset)):
        return any(agreed(a) for a in v)
    return False


def exposed(v, only=None, texts=None):
    """The secret shown by someone who is shown `v`, or None.
    texts(cls, term) says how an object of a class is written out."""
    if isinstance(v, (tuple, frozenset)):
        for a in v:
            r = exposed(a, only, texts)
            if r is not None:
                return r
        return None
    if not isinstance(v, Val):
        return None
    if only is not None:
        if v in only:
            return v
    elif is_secret(v):
        return v
    if isinstance(v, (Fn, Cls)):
        return None
    if isinstance(v, App):
        if v.op in ONEWAY or v.op == 'privkey':
            return None
        if v.op == 'hmac':
            return exposed(v.args[1:], only, texts)
        if v.op in DIGESTS:
            # the digest of a key is no key, that of a shared secret is
            # a symmetric key
            if agreed(v):
                return exposed(v.args, only, texts)
            return None
        if v.op == 'crypt':
            return exposed(v.args[2:], only, texts)
        if v.op == 'inst':
            if texts is None:
                return None
            return texts(v)
        if v.op == 'excobj':
            return exposed(v.args[1:], only, texts)
        if v.op in UNKNOWN:
            if v.op in ('attr', 'mcall') and any(
                    (a.v if isinstance(a, C) else a) in REVEALS
                    for a in v.args if not isinstance(a, App)):
                inner = next((a for a in v.args if isinstance(a, App) and
                              a.op == 'privkey'), None)
                if inner is not None:
                    return inner
            if v.op == 'call' and isinstance(v.args[0], App) and \
                    v.args[0].op == 'attr':
                r = exposed(v.args[0], only, texts)
                if r is not None:
                    return r
            if exposed(v.args, only, texts) is not None:
                raise Undecided('a key goes through %s' % show(v)[:200])
            return None
    return exposed(v.k, only, texts)


@prop('C40')
def c40(x, w):
    x.rule('Every function that is given or makes a private key is run with '
           'a symbolic key on all paths, failing ones included. What it '
           'logs, prints and writes, the arguments and attributes of what '
           'it raises, the text of the objects involved and the frames it '
           'makes must not depend on the key except through one-way '
           'operations (public key, signature, digest, key agreement, '
           'encryption under it, length, comparison). Secrets agreed with '
           'a key count as keys themselves.')
    x.assume('exceptions raised by third-party code do not contain keys; '
             'third-party key objects are not written out by their repr')
    e = w.e
    seen_before, e.seen_funcs = e.seen_funcs, set()
    sites = []

    def texts(st):
        def text(term):
            """a frozen object in a text"""
            cls = term.args[0]
            if not isinstance(cls, Cls):
                return None
            for nm in ('__str__', '__repr__', '__format__'):
                r = e.cls_lookup(cls, nm, st)
                if r is not None and isinstance(r[1], Fn) and \
                        exposed(term.args[1:]) is not None:
                    raise Undecided('a text of %s' % show(term)[:200])
            return None
        return text

    def outcome(o, what):
        t = texts(o.st)
        for ev in o.st.ev:
            if ev[0] in ('log', 'print'):
                args = ev[2] if ev[0] == 'log' else ev[1]
                sites.append((what, ev[-1]))
                r = exposed(tuple(args), None, t)
                if r is not None:
                    raise Fail('%s %ss %s, which shows the key %s' % (
                        what, ev[0], show(Tup(*[
                            a for a in args if isinstance(a, Val)]))[:300],
                        show(r)[:100]), ev[-1])
            elif ev[0] == 'extcall':
                if ev[1].startswith(SINKS):
                    sites.append((what, ev[-1]))
                    r = exposed(tuple(ev[2]), None, t)
                    if r is not None:
                        raise Fail('%s hands the key %s to %s' % (
                            what, show(r)[:100], ev[1]), ev[-1])
                elif exposed(tuple(ev[2]), None, t) is not None:
                    raise Undecided('%s hands a key to %s' % (what, ev[1]))
        if not o.ok:
            raised(o, o.val, what)

    def raised(o, exc, what, depth=0):
        if not isinstance(exc, Ref) or depth > 4:
            return
        obj = e.o(exc, o.st)
        sites.append((what, 'raises ' + e.cls_name(obj.cls)))
        for k, v in obj.attrs.items():
            if k.startswith('\0'):
                continue
            if isinstance(v, Ref) and k in ('__cause__', '__context__'):
                raised(o, v, what, depth + 1)
                continue
            r = exposed(e.freeze(v, o.st), None, texts(o.st))
            if r is not None:
                raise Fail('%s raises %s, whose %s shows the key %s' % (
                    what, e.cls_name(obj.cls), k, show(r)[:100]), o.where)

    def run(what, outs, need=True):
        good = []
        for o in outs:
            outcome(o, what)
            if o.ok:
                good.append(o)
        if need and not good:
            raise Undecided('%s never succeeds' % what)
        return good

    def text_of(obj, st, what):
        """What str(), repr() and format() of an object show"""
        n = 0
        if not isinstance(obj, (Ref, NT)):
            return 0
        for nm in ('__repr__', '__str__', '__format__'):
            cls = obj.cls if isinstance(obj, NT) else e.o(obj, st).cls
            if not isinstance(cls, Cls):
                continue
            r = e.cls_lookup(cls, nm, st)
            if r is None or not isinstance(r[1], Fn):
                if isinstance(obj, NT):
                    v = exposed(e.freeze(obj, st))
                    if v is not None:
                        raise Fail('the text of %s shows %s' % (
                            what, show(v)[:100]))
                continue
            args = [C('')] if nm == '__format__' else []
            for o in w.call(obj, nm, args, st=st.fork(), implicit='none'):
                outcome(o, '%s of %s' % (nm, what))
                n += 1
                if not o.ok:
                    continue
                v = exposed(o.frozen(), None, texts(o.st))
                if v is not None:
                    raise Fail('%s of %s shows the key %s' % (
                        nm, what, show(v)[:100]))
        return n

    def fields_of(ref, st, what):
        """The fields of a message hold no key"""
        cls = e.o(ref, st).cls
        for f in e.slot_names(cls):
            for o in e.read(ref, f, st.fork()):
                if o.ok:
                    v = exposed(e.freeze(o.val, o.st))
                    if v is not None:
                        raise Fail('%s puts the key %s into field %s' % (
                            what, show(v)[:100], f))

    # ---- plain functions
    def functions():
        n = 0
        for path, args in (
                ('cryptography:ecdsa_sign', [PRIV, DATA]),
                ('cryptography:ecdsa_sign', [LOOSE, DATA]),
                ('cryptography:privtopub', [PRIV]),
                ('cryptography:privtopub', [LOOSE]),
                ('cryptography:mk_privkey', [SEED])):
            try:
                f = w.fn(path)
            except AnalysisError:
                continue
            outs = w.run(f, args, implicit='all')
            run(path, outs)
            n += len(outs)
        if not n:
            raise Undecided('none of the functions exists')
        return '%d paths' % n
    x.ob('functions', functions)

    # ---- key objects
    def objects(k):
        run('ECCx', w.run('cryptography:ECCx', [k], implicit='all'))
        n = 0
        for me, st in keyobj(w, k):
            text_of(me, st, 'ECCx')
            for nm, args in (
                    ('sign', [DATA]), ('verify', [SMD, DATA]),
                    ('has_valid_keys', [])):
                for o in run('ECCx.' + nm, w.call(
                        me, nm, args, st=st.fork(), implicit='all'),
                        need=nm != 'verify'):
                    n += 1 + text_of(me, o.st, 'ECCx')
            for nm in ('raw_privkey', 'raw_pubkey'):
                for o in e.read(me, nm, st.fork()):
                    outcome(o, 'ECCx.' + nm)
                    n += 1
        return '%d paths' % n
    x.ob('ECCx/given', objects, PRIV)
    x.ob('ECCx/loose', objects, LOOSE)
    x.ob('ECCx/generated', objects, NONE)

    def hashable():
        n = 0
        for args in ([PRIV], [LOOSE], []):
            for o in run('HashablePrivateKey', w.run(
                    'cryptography:HashablePrivateKey', args,
                    implicit='all')):
                text_of(o.val, o.st, 'HashablePrivateKey')
                for o2 in w.call(o.val, '__hash__', [], st=o.st):
                    outcome(o2, 'hash of a key')
                    n += 1
                for o2 in w.call(o.val, 'ecdh', [PUB], st=o.st):
                    outcome(o2, 'key agreement')
                    n += 1
        return '%d paths' % n
    x.ob('HashablePrivateKey', hashable)

    # ---- encryption
    def manager(ref, st):
        out = [('ECIES', ref)]
        for k, v in e.o(ref, st).attrs.items():
            if isinstance(v, Ref):
                out.append(('ECIES.' + k, v))
        return out

    def encryption(name, args):
        n = 0
        for me, st in ecies(w):
            outs = w.call(me, name, args, st=st, implicit='all')
            for o in run('ECIES.' + name, outs):
                if name == 'encrypt':
                    v = exposed(o.frozen())
                    if v is not None:
                        raise Fail('the ciphertext shows %s' % show(v)[:100])
                for what, ref in manager(me, o.st):
                    text_of(ref, o.st, what)
            n += len(outs)
            # a second time, now that keys may have been kept
            for o in outs[:3]:
                if o.ok:
                    more = w.call(me, name, args, st=o.st.fork(),
                                  implicit='all')
                    run('ECIES.' + name, more)
                    n += len(more)
        return '%d paths' % n
    x.ob('ECIES/encrypt', encryption, 'encrypt', [DATA, FULL, SMD])
    for k in (PRIV, LOOSE):
        x.ob('ECIES/decrypt/%s' % k.k[0], encryption, 'decrypt',
             [DATA, k, SMD])

    # ---- messages
    def dumping(q, num):
        n = 0
        for priv in (PRIV, LOOSE, NONE):
            for pub in (FULL, NONE):
                st = e.state()
                m = message(w, q, num, st, NONE)
                for o in run('dump', w.run('shortcuts:dump', [m, priv, pub],
                                           st=st), need=False):
                    n += 1
                    v = exposed(o.frozen())
                    if v is not None:
                        raise Fail('a dumped %s shows the key %s' % (
                            q, show(v)[:100]))
                    fields_of(m, o.st, 'dump of %s' % q)
        if not n:
            raise Undecided('%s is never dumped' % q)
        return '%d paths' % n

    def loading(q, num):
        outs = w.load(num, priv=LOOSE, pub=PUB)
        run('load of %s' % q, outs, need=False)
        outs = w.load(num, priv=PRIV, pub=PUB)
        good = run('load of %s' % q, outs, need=False)
        for o in good[:6]:
            for s, ref in e.split(o.val, o.st):
                fields_of(ref, s, 'load of %s' % q)
        return '%d paths' % len(outs)

    def texts_signed(q, num):
        n = 0
        for how, key in (
                (h, k) for h in ('sign_message', 'serialize',
                                 'copy_and_sign') for k in (PRIV, LOOSE)):
            st = e.state()
            m = message(w, q, num, st, NONE)
            if how == 'sign_message':
                outs = w.call(m, how, [key], st=st)
            elif how == 'serialize':
                outs = w.call(m, how, [], {'sign_as': key}, st=st)
            else:
                outs = w.run('utils:copy_and_sign', [m, key], st=st)
            for o in run('%s of %s' % (how, q), outs):
                ref = o.val if how == 'copy_and_sign' else m
                n += 1
                fields_of(ref, o.st, '%s of %s' % (how, q))
                text_of(ref, o.st, q)
        return '%d paths' % n
    some_kinds = {'message.base:Hello', 'message.base:RandVal', TTC,
                  'message.tasks:WantToComputeTask',
                  'message.concents:ServiceRefused'}
    for num, q, cls in w.kinds():
        x.ob('dump/%s' % q, dumping, q, num)
        if q in some_kinds or x.tier == 'thorough':
            x.ob('load/%s' % q, loading, q, num)
        x.ob('sign/%s' % q, texts_signed, q, num)

    def badframe():
        n = 0
        for k in (PRIV, LOOSE):
            outs = w.run('shortcuts:load', [DATA, k, PUB], implicit='all')
            run('load', outs, need=False)
            n += len(outs)
        return '%d paths' % n
    x.ob('load/any', badframe)

    # ---- signatures of tasks, notes and headers
    def ethsig():
        n = 0
        epub = App('hex', App('input', 'EPUB', 64))
        for pk, key in ((epub, PRIV), (epub, LOOSE), (NONE, PRIV)):
            st = e.state()
            node = deep(w, TTC, 'M', st, attrs={
                'requestor_ethereum_public_key': pk})
            for o in run('generate_ethsig', w.call(
                    node.ref, 'generate_ethsig', [key], st=st),
                    need=pk != NONE):
                n += 1
                fields_of(node.ref, o.st, 'generate_ethsig')
        return '%d paths' % n
    x.ob('generate_ethsig', ethsig)

    def notes(q, name, key):
        st = e.state()
        node = deep(w, q, 'M', st)
        outs = w.call(node.ref, name, [], {
            'deposit_contract_address': CONTRACT, 'private_key': key},
            st=st)
        for o in run('%s.%s' % (q, name), outs):
            fields_of(node.ref, o.st, name)
        return '%d paths' % len(outs)
    for q, names in (
            (TTC, ('sign_promissory_note', 'sign_concent_promissory_note',
                   'sign_all_promissory_notes')),
            (SRV, ('sign_concent_promissory_note',))):
        for nm in names:
            for k in (PRIV, LOOSE):
                x.ob('%s/%s/%s' % (q, nm, keyname(k)), notes, q, nm, k)

    def note():
        n = 0
        kws = {'address_from': App('checksum', App('input', 'FROM', 20)),
               'address_to': App('checksum', App('input', 'TO', 20)),
               'amount': Sym('AMOUNT', ['int']),
               'subtask_id': Sym('SUBTASK', ['str']),
               'contract_address': CONTRACT}
        for o in run('PromissoryNote', w.run(NOTE, [], kws)):
            for o2 in [
                    o2 for k in (PRIV, LOOSE)
                    for o2 in run('PromissoryNote.sign', w.call(
                        o.val, 'sign', [k], st=o.st.fork(),
                        implicit='all'))]:
                n += 1
                v = exposed(e.freeze(o2.val, o2.st))
                if v is not None:
                    raise Fail('a note signature shows %s' % show(v)[:100])
                text_of(o.val, o2.st, 'PromissoryNote')
        return '%d paths' % n
    x.ob('PromissoryNote', note)

    def header():
        n = 0
        kws, st = {}, e.state()
        for g, (kind, req, default) in R.CONTAINERS[HEADER].items():
            if g != 'signature':
                kws[g], st = some(w, kind, st, 'V.' + g)
        for o in make_container(w, HEADER, kws, st):
            if not o.ok:
                continue
            for o2 in [
                    o2 for k in (PRIV, LOOSE)
                    for o2 in run('TaskHeader.sign', w.call(
                        o.val, 'sign', [k], st=o.st.fork(),
                        implicit='all'))]:
                n += 1
                for r in w.call(o.val, 'to_dict', [], st=o2.st.fork(),
                                implicit='none'):
                    if r.ok:
                        v = exposed(r.frozen())
                        if v is not None:
                            raise Fail('a signed header shows the key %s'
                                       % show(v)[:100])
                text_of(o.val, o2.st, 'TaskHeader')
        return '%d paths' % n
    x.ob('TaskHeader', header)

    # ---- did every function that handles keys take part?
    def coverage():
        n = []
        for f in e.funcs:
            if f is None or 'factories' in f.mod:
                continue
            names = [a.arg for a in param_nodes(f.node)]
            if not any(any(k in nm.lower() for k in KEYWORDS)
                       for nm in names):
                continue
            if f.id not in e.seen_funcs:
                n.append('%s:%s' % (f.mod, f.qual))
        if n:
            raise Undecided('not reached: %s' % ', '.join(n))
        return '%d places that log, print or raise' % len(set(sites))
    x.ob('coverage', coverage)
    e.seen_funcs |= seen_before


def keyname(k):
    return 'loose' if k == LOOSE else 'given'


def param_nodes(node):
    a = getattr(node, 'args', None)
    if a is None:
        return []
    return a.posonlyargs + a.args + a.kwonlyargs

"""Rules about the cryptographic layer: signatures, ECIES, keys."""
from fractions import Fraction

from . import prop
from .common import *  # noqa: F401,F403
from .common import (
    App, C, Fail, NONE, Sym, TRUE, Undecided, cat, is_exc, oks, show, ops,
    verified)
from ..dom import clock, lin_of
from ..world import PRIV

DATA = Sym('DATA', ['bytes'])
SMD = Sym('SMD', ['bytes'])
EPH = App('input', 'EPH', 64)
IV = App('input', 'IV', 16)
CT = Sym('CT', ['bytes'])
TAG = App('input', 'TAG', 32)
ANY = Sym('ANY', ['bytes'])
MSG = Sym('MSG', ['bytes'])
SIGN = Sym('SIGN', ['bytes'])
PUBB = Sym('PUB', ['bytes'])
AES = C('aes-128-ctr')


def pub_of_priv(k=PRIV):
    return App('point', App('pubkey', App('privkey', k)))


def keyobj(w, k=PRIV, st=None):
    """(object, state) of every key object made from private key k"""
    outs = oks(w.run('cryptography:ECCx', [k], st=st, implicit='all'),
               'key object')
    return [(o.val, o.st) for o in outs]


def ecies(w, st=None, **kw):
    """A fresh ECIES instance: [(object, state)]"""
    return [(o.val, o.st) for o in oks(
        w.run('cryptography:ECIES', [], kw, st=st), 'ECIES instance')]


# ------------------------------------------------------------------ C09

def digest_of(data):
    return App('sha3_256', data)


def check_verify(w, outs, key, sig, data, what):
    """key: 64-byte form of the key being verified against"""
    good = 0
    full = cat(C(b'\x04'), key)
    for o in outs:
        if o.ok:
            good += 1
            if w.truthy(o.st, o.val) != {True}:
                w.fail(o, '%s returns %s instead of raising' % (
                    what, show(o.frozen())))
            want = [key, full]
            if not any(s == sig and d == digest_of(data) and
                       (k in want or any(w.proves(o.st, '==', k, x)
                                         for x in want))
                       for k, s, d in verified(o.st)):
                w.fail(o, '%s succeeds although the key recovered from the '
                          'signature over the SHA3-256 of the data is not '
                          'shown to be the given key' % what)
            r = App('point', App('recover', sig, digest_of(data), NONE))
            if w.ask(o.st, '==', key, r) != {True}:
                w.fail(o, '%s succeeds with a key that is not known to be '
                          'exactly the recovered one' % what)
        elif not (is_exc(w, o, 'InvalidSignature') or
                  is_exc(w, o, 'InvalidKeys')):
            w.fail(o, '%s raises %s' % (what, o.exc_name))
    if not good:
        raise Fail('%s never succeeds' % what)
    return '%d paths' % len(outs)


@prop('C09')
def c09(x, w):
    x.rule('All paths of verifying arbitrary key, signature and data bytes: '
           'a path that returns must have established that the key '
           'recovered from the signature over SHA3-256(data) equals the '
           'given key and return true; every other path must raise a '
           'signature or key error. What signing makes must verify, and '
           'only with the public half of the signing key.')
    x.ob('ecdsa_verify', lambda: check_verify(
        w, w.run('cryptography:ecdsa_verify', [PUBB, SIGN, MSG]),
        PUBB, SIGN, MSG, 'ecdsa_verify'))

    def longer():
        """keys of the wrong length are refused, whatever the signature"""
        st = w.e.state()
        for o in w.run('cryptography:ecdsa_verify', [PUBB, SIGN, MSG],
                       st=st):
            if o.ok and not w.proves(
                    o.st, '==', App('len', PUBB), C(64)):
                w.fail(o, 'a key that is not 64 bytes long verifies')
    x.ob('ecdsa_verify/key-length', longer)

    def obj_verify():
        n = 0
        for me, st in keyobj(w):
            outs = w.call(me, 'verify', [SIGN, MSG], st=st)
            check_verify(w, outs, pub_of_priv(), SIGN, MSG, 'ECCx.verify')
            n += len(outs)
        return '%d paths' % n
    x.ob('ECCx.verify', obj_verify)

    want = App('ecsign', App('privkey', PRIV), digest_of(MSG), NONE)

    def sign():
        for o in oks(w.run('cryptography:ecdsa_sign', [PRIV, MSG])):
            if o.frozen() != want:
                w.fail(o, 'signing makes %s' % show(o.frozen()))
    x.ob('ecdsa_sign', sign)

    def obj_sign():
        for me, st in keyobj(w):
            for o in oks(w.call(me, 'sign', [MSG], st=st)):
                if o.frozen() != want:
                    w.fail(o, 'signing makes %s' % show(o.frozen()))
    x.ob('ECCx.sign', obj_sign)

    def text():
        """text is hashed the same way on both sides"""
        t = Sym('TEXT', ['str'])
        s = [o.frozen() for o in oks(w.run('cryptography:ecdsa_sign',
                                           [PRIV, t]))]
        for o in w.run('cryptography:ecdsa_verify',
                       [pub_of_priv(), s[0], t]):
            if not o.ok or o.val != TRUE:
                w.fail(o, 'a signature over text does not verify')
    x.ob('sign-verify/text', text)

    def both():
        for o in oks(w.run('cryptography:ecdsa_sign', [PRIV, MSG])):
            for o2 in w.run('cryptography:ecdsa_verify',
                            [pub_of_priv(), o.val, MSG], st=o.st):
                if not o2.ok or w.truthy(o2.st, o2.val) != {True}:
                    w.fail(o2, 'an own signature does not verify')
    x.ob('sign-verify', both)


# ------------------------------------------------------------------ C12

def auth_before_decrypt(w, outs, what):
    """No decryption happens on a path unless the tag comparison (constant
    time) precedes it and holds."""
    n = 0
    for o in outs:
        ev = list(o.st.ev)
        for i, x in enumerate(ev):
            if x[0] != 'crypt':
                continue
            n += 1
            t = x[1]
            before = [y for y in ev[:i] if y[0] == 'consteq']
            good = False
            for y in before:
                a, b = y[1], y[2]
                if not (isinstance(a, App) and a.op == 'hmac'):
                    a, b = b, a
                if not (isinstance(a, App) and a.op == 'hmac'):
                    continue
                if w.proves(o.st, '==', a, b):
                    good = True
            if not good:
                w.fail(o, '%s: %s is computed before the tag is verified '
                          'in constant time' % (what, show(t)))
    return n


def secret(priv, eph):
    """Terms the shared secret of these keys may be written as"""
    return App('ecdh', App('privkey', priv), App('pubkeyobj', eph))


def ckdf(sec):
    return App('sha256', cat(C(b'\0\0\0\1'), sec))


@prop('C12')
def c12(x, w):
    x.rule('All paths of ECIES decryption of structured and of arbitrary '
           'bytes: a decryption needs a preceding constant-time comparison '
           'of HMAC(vector || ciphertext || shared data) with the received '
           'tag whose outcome is known to be equal; other outcomes are '
           'decryption errors. Encryption output is compared term by term '
           'with the layout, and decrypting it gives the data back.')
    data = cat(C(b'\x04'), EPH, IV, CT, TAG)

    def structured():
        n = 0
        for me, st in ecies(w):
            outs = w.call(me, 'decrypt', [data, PRIV, SMD], st=st)
            auth_before_decrypt(w, outs, 'decrypt')
            bad = 0
            for o in outs:
                n += 1
                tags = [a for f in o.st.facts for a in ops(f, 'hmac')]
                body = cat(IV, CT, SMD)
                mine = [t for t in tags if t.args[1] == body]
                if o.ok:
                    if not any(w.proves(o.st, '==', t, TAG) for t in mine):
                        w.fail(o, 'decrypting succeeds without the tag '
                                  'being the keyed hash of vector, '
                                  'ciphertext and shared data')
                    v = o.frozen()
                    if not (isinstance(v, App) and v.op == 'crypt' and
                            v.args[0] == C(0) and v.args[2] == IV and
                            v.args[3] == AES and v.args[4] == CT):
                        w.fail(o, 'the plaintext is %s' % show(v))
                else:
                    if not is_exc(w, o, 'DecryptionError'):
                        w.fail(o, 'a wrong tag raises %s' % o.exc_name)
                    bad += 1
            if not bad:
                raise Fail('a wrong tag is not refused')
        return '%d paths' % n
    x.ob('decrypt/structured', structured)

    def default_smd():
        for me, st in ecies(w):
            outs = w.call(me, 'decrypt', [data, PRIV], st=st)
            for o in oks(outs):
                tags = [a for f in o.st.facts for a in ops(f, 'hmac')]
                if not any(t.args[1] == cat(IV, CT) and
                           w.proves(o.st, '==', t, TAG) for t in tags):
                    w.fail(o, 'without shared data the tag is not the keyed '
                              'hash of vector and ciphertext')
    x.ob('decrypt/no-shared-data', default_smd)

    def any_bytes():
        n = 0
        for me, st in ecies(w):
            outs = w.call(me, 'decrypt', [ANY, PRIV, SMD], st=st,
                          implicit='all')
            n += auth_before_decrypt(w, outs, 'decrypt')
            for o in outs:
                if not o.ok:
                    continue
                tags = [a for f in o.st.facts for a in ops(f, 'hmac')]
                if not any(w.proves(o.st, '==', t, App(
                        'slc', ANY, ('e', 32), ('e', 0))) and
                        t.args[1] == cat(App('slc', ANY, ('s', 65),
                                             ('e', 32)), SMD)
                        for t in tags):
                    w.fail(o, 'decrypting arbitrary bytes succeeds without '
                              'their last 32 bytes being the keyed hash of '
                              'the bytes from 65 on')
        return '%d decryptions' % n
    x.ob('decrypt/any', any_bytes)

    def first():
        f = App('input', 'FIRST', 1)
        no = 0
        for me, st in ecies(w):
            for o in w.call(me, 'decrypt',
                            [cat(f, EPH, IV, CT, TAG), PRIV], st=st):
                r = w.ask(o.st, '==', f, C(b'\x04'))
                if o.ok and r != {True}:
                    w.fail(o, 'the first byte need not be 0x04')
                if not o.ok and r == {False}:
                    no += 1
                    if not is_exc(w, o, 'DecryptionError'):
                        w.fail(o, 'a wrong first byte raises %s'
                               % o.exc_name)
            if not no:
                raise Fail('a wrong first byte is not refused')
    x.ob('decrypt/first-byte', first)

    x64 = App('input', 'RECIPIENT', 64)

    def layout():
        for me, st in ecies(w):
            outs = w.call(me, 'encrypt', [DATA, x64, SMD], st=st)
            for o in oks(outs):
                check_layout(w, o, SMD)
            outs = w.call(me, 'encrypt', [DATA, x64], st=st)
            for o in oks(outs):
                check_layout(w, o, C(b''))
    x.ob('encrypt/layout', layout)

    def back(smd, fresh):
        me, st = ecies(w)[0]
        kw = [smd] if smd is not None else []
        n = 0
        for o in oks(w.call(me, 'encrypt', [DATA, pub_of_priv()] + kw,
                            st=st)):
            s = o.st
            other = me
            if fresh:
                other, s = ecies(w, st=s)[0]
            for o2 in w.call(other, 'decrypt', [o.val, PRIV] + kw, st=s,
                             implicit='none'):
                n += 1
                if not o2.ok or o2.frozen() != DATA:
                    w.fail(o2, 'decrypting what was encrypted gives %s'
                           % (show(o2.frozen()) if o2.ok else o2.exc_name))
        if not n:
            raise Undecided('no outcome')
    x.ob('roundtrip/same-instance', lambda: back(None, False))
    x.ob('roundtrip/other-instance', lambda: back(None, True))
    x.ob('roundtrip/shared-data', lambda: back(SMD, True))

    def short():
        """the public entry point turns every failure into the error"""
        outs = w.run('cryptography:decrypt', [ANY, PRIV], implicit='try')
        auth_before_decrypt(w, outs, 'decrypt')
    if has(w, 'cryptography:decrypt'):
        x.ob('module-decrypt', short)


def has(w, path):
    from ..engine import AnalysisError
    try:
        return w.fn(path) is not None
    except AnalysisError:
        return False


def parts_of(w, o):
    v = o.frozen()
    if not (isinstance(v, App) and v.op == 'cat' and len(v.args) == 5):
        w.fail(o, 'the encrypted form is %s' % show(v))
    return v.args


def check_layout(w, o, smd):
    first, eph, iv, ct, tag = parts_of(w, o)
    if first != C(b'\x04'):
        w.fail(o, 'the first byte is %s' % show(first))
    if not (isinstance(eph, App) and eph.op == 'point' and
            any(k.args[1] == 'key' for k in ops(eph, 'fresh'))):
        w.fail(o, 'the sender key is %s' % show(eph))
    if w.e.models.len_of(iv, o.st) != 16:
        w.fail(o, 'the vector is %s' % show(iv))
    if not (isinstance(ct, App) and ct.op == 'crypt' and
            ct.args[0] == C(1) and ct.args[2] == iv and ct.args[3] == AES
            and ct.args[4] == DATA):
        w.fail(o, 'the ciphertext is %s' % show(ct))
    if not (isinstance(tag, App) and tag.op == 'hmac' and
            tag.args[1] == cat(iv, ct, smd)):
        w.fail(o, 'the tag is %s' % show(tag))
    priv = eph.args[0]
    if not (isinstance(priv, App) and priv.op == 'pubkey'):
        w.fail(o, 'the sender key is %s' % show(eph))
    return eph, iv, ct, tag


# ------------------------------------------------------------------ C13

def zone_implies(w, st, form, limit):
    """Do the interval facts of st imply form <= limit?  form: {term: coef}.
    Searches sums of at most three facts."""
    goal = {t: Fraction(c) for t, c in form.items()}
    facts = []
    for vec, (lo, ls, hi, hs) in st.iv.items():
        d = dict(vec)
        if hi is not None:
            facts.append((d, hi))
        if lo is not None:
            facts.append(({t: -c for t, c in d.items()}, -lo))

    def search(rest, budget, depth, start):
        if not rest and budget >= 0:
            return True
        if depth == 0:
            return False
        for i in range(start, len(facts)):
            d, hi = facts[i]
            r = dict(rest)
            for t, c in d.items():
                r[t] = r.get(t, 0) - c
                if r[t] == 0:
                    del r[t]
            if len(r) <= 2 * depth and search(r, budget - hi, depth - 1, 0):
                return True
        return False
    return search({t: c for t, c in goal.items() if c}, Fraction(limit), 5,
                  0)


@prop('C13')
def c13(x, w):
    x.rule('Histories of two and three encryptions at symbolic times, to '
           'the same and to different recipients: vectors are distinct '
           'random values used in the cipher and sent along; where a later '
           'ciphertext reuses the sender key of an earlier one, the '
           'interval facts of the path must imply that at most the '
           'configured lifetime lies between them.')
    x.assume('lru_cache keeps a result until it is evicted or cleared '
             '(worst case for the lifetime)')
    e = w.e
    a, b = App('input', 'RCPT_A', 64), App('input', 'RCPT_B', 64)
    T = Sym('TIMEOUT', ['int'])

    def history(steps, timeout=T):
        """[(state, [outcome value per step])]"""
        saved = e.clock
        try:
            st = e.state()
            e.clock = clock(0)
            km = oks(w.run('cryptography:ECIESKeyManager', [],
                           {'timeout': timeout}, st=st))
            live = []
            for o in km:
                for o2 in oks(w.run('cryptography:ECIES', [],
                                    {'key_manager': o.val}, st=o.st)):
                    live.append((o2.st, o2.val, []))
            for i, rcpt in enumerate(steps, 1):
                e.clock = clock(i)
                nxt = []
                for s, me, acc in live:
                    for s2, ok in e.compare(w_ge(), clock(i), clock(i - 1),
                                            s.fork(), None, None):
                        if not ok:
                            continue
                        for o in oks(w.call(me, 'encrypt',
                                            [DATA, rcpt, SMD], st=s2)):
                            nxt.append((o.st, me, acc + [o]))
                live = nxt
            return [(s, acc) for s, _, acc in live]
        finally:
            e.clock = saved

    def vectors(steps):
        n = 0
        for st, res in history(steps):
            seen = []
            for o in res:
                eph, iv, ct, tag = check_layout(w, o, SMD)
                if not (isinstance(iv, App) and (
                        iv.op == 'fresh' and iv.args[1] == 'iv' or
                        iv.op == 'randbytes')):
                    w.fail(o, 'the vector %s is not a new random value'
                           % show(iv))
                if iv in seen:
                    w.fail(o, 'two encryptions use the same vector')
                seen.append(iv)
                n += 1
        return '%d encryptions' % n
    x.ob('vector/same-recipient', lambda: vectors([a, a]))
    x.ob('vector/other-recipient', lambda: vectors([a, b]))

    def ephemeral(o):
        return check_layout(w, o, SMD)[0].args[0].args[0]

    def private():
        for st, res in history([a, b]):
            if w.proves(st, '==', a, b):
                continue
            k1, k2 = ephemeral(res[0]), ephemeral(res[1])
            if k1 == k2:
                w.fail(res[1], 'two recipients share a sender key')
            for o, r, k in ((res[0], a, k1), (res[1], b, k2)):
                ct = parts_of(w, o)[3]
                sec = [t for t in ops(ct.args[1], 'ecdh')]
                if not sec or any(
                        r not in list(subterms_of(s)) for s in sec):
                    w.fail(o, 'the session key does not come from the '
                              'recipient key')
    x.ob('key/private-to-recipient', private)

    def lifetime(steps):
        n = reused = 0
        for st, res in history(steps):
            ks = [ephemeral(o) for o in res]
            for i in range(len(ks)):
                for j in range(i + 1, len(ks)):
                    n += 1
                    if ks[i] != ks[j]:
                        continue
                    reused += 1
                    form = {}
                    for t, c in ((clock(j + 1), 1), (clock(i + 1), -1),
                                 (T, -1)):
                        form[t] = form.get(t, 0) + c
                    if not zone_implies(w, st, form, 0):
                        w.fail(res[j], 'the sender key made for step %d is '
                               'still used in step %d although more than '
                               'the configured lifetime may have passed'
                               % (i + 1, j + 1))
        return '%d pairs, %d reuses' % (n, reused)
    x.ob('lifetime/A-A', lambda: lifetime([a, a]))
    x.ob('lifetime/A-A-A', lambda: lifetime([a, a, a]))
    x.ob('lifetime/A-B-A', lambda: lifetime([a, b, a]))


def w_ge():
    import ast
    return ast.GtE()


def subterms_of(v):
    from .common import subterms
    return subterms(v)


# ------------------------------------------------------------------ C14

@prop('C14')
def c14(x, w):
    x.rule('The key of every cipher operation and of every keyed hash, as '
           'terms, on all paths of encryption and decryption: they must be '
           'the first half of, and the SHA-256 of the second half of, '
           'SHA256(00000001 || shared secret), with the same secret.')
    rcpt = App('input', 'RECIPIENT', 64)

    def halves(sec):
        k = ckdf(sec)
        m = w.e.models
        st = w.e.state()
        return m.cut(k, 0, 16, st), App('sha256', m.cut(k, 16, 32, st))

    def starts(before, differ=None):
        """(key object, state), after one other operation if before; with
        inputs that differ"""
        for me, st in ecies(w):
            if before is None:
                yield me, st
                continue
            for o in w.call(me, *before, st=st):
                for s, same in w.e.eq(*differ, o.st):
                    if o.ok and same is False:
                        yield me, s

    def encr(*before):
        for me, st in starts(*before or [None]):
            for o in oks(w.call(me, 'encrypt', [DATA, rcpt, SMD], st=st)):
                eph, iv, ct, tag = check_layout(w, o, SMD)
                priv = eph.args[0].args[0]
                sec = App('ecdh', priv, App('pubkeyobj',
                                            cat(C(b'\x04'), rcpt)))
                want = halves(sec)
                if ct.args[1] != want[0]:
                    w.fail(o, 'the cipher key is %s' % show(ct.args[1]))
                if tag.args[0] != want[1]:
                    w.fail(o, 'the authentication key is %s'
                           % show(tag.args[0]))
    x.ob('encrypt', encr)

    def decr(*before):
        data = cat(C(b'\x04'), EPH, IV, CT, TAG)
        sec = App('ecdh', App('privkey', PRIV),
                  App('pubkeyobj', cat(C(b'\x04'), EPH)))
        want = halves(sec)
        for me, st in starts(*before or [None]):
            for o in oks(w.call(me, 'decrypt', [data, PRIV, SMD], st=st)):
                if o.frozen().args[1] != want[0]:
                    w.fail(o, 'the cipher key is %s'
                           % show(o.frozen().args[1]))
                tags = {t for f in o.st.facts if f not in st.facts
                        for t in ops(f, 'hmac')}
                if not tags:
                    w.fail(o, 'no keyed hash is compared')
                for t in tags:
                    if t.args[0] != want[1]:
                        w.fail(o, 'the authentication key is %s'
                               % show(t.args[0]))
    x.ob('decrypt', decr)

    # the same object has been used with another peer before
    other = App('input', 'other RECIPIENT', 64)
    x.ob('encrypt/after encrypt', encr, ('encrypt', [
        Sym('DATA0', ['bytes']), other, SMD]), (rcpt, other))
    other = App('input', 'other EPH', 64)
    x.ob('decrypt/after decrypt', decr, ('decrypt', [
        cat(C(b'\x04'), other, IV, CT, TAG), PRIV, SMD]), (EPH, other))
    other = App('input', 'other PRIVKEY', 32)
    x.ob('decrypt/after other key', decr, ('decrypt', [
        cat(C(b'\x04'), EPH, IV, CT, TAG), other, SMD]), (PRIV, other))


# ------------------------------------------------------------------ C52

@prop('C52')
def c52(x, w):
    x.rule('Key derivation and the key object are evaluated on symbolic '
           'private keys; every attribute and every refusal path is '
           'compared with the definition.')
    P = pub_of_priv()

    def priv2pub():
        for o in w.run('cryptography:privtopub', [PRIV]):
            if o.ok and o.frozen() != P:
                w.fail(o, 'the public key is %s' % show(o.frozen()))
            if o.ok and w.e.models.len_of(o.frozen(), o.st) != 64:
                w.fail(o, 'the public key has not 64 bytes')
        oks([o for o in w.run('cryptography:privtopub', [PRIV])])
    x.ob('privtopub', priv2pub)

    def attrs():
        for me, st in keyobj(w):
            for nm, want in (('raw_pubkey', P), ('raw_privkey', PRIV)):
                for s, v in w.attr(me, nm, st):
                    if w.e.freeze(v, s) != want:
                        raise Fail('%s of a key object is %s' % (
                            nm, show(w.e.freeze(v, s))))
    x.ob('ECCx/keys', attrs)

    def refusal(k):
        outs = w.run('cryptography:ECCx', [k], implicit='all')
        bad = 0
        for o in outs:
            chk = [f for f in o.st.facts if isinstance(f, App) and
                   f.op == 'raises' and any(
                       t.op == 'privformat' for t in f.args
                       if isinstance(t, App))]
            if o.ok:
                if not chk or any(o.st.facts[f] for f in chk):
                    w.fail(o, 'a key object is made although its private '
                              'key does not check out')
            elif any(o.st.facts[f] for f in chk):
                bad += 1
                if not is_exc(w, o, 'CryptoError'):
                    w.fail(o, 'a bad key raises %s' % o.exc_name)
        if not bad:
            raise Fail('key objects are made without checking their keys')
        return '%d paths' % len(outs)
    x.ob('ECCx/refused', lambda: refusal(PRIV))
    x.ob('ECCx/generated-refused', lambda: refusal(NONE))

    def mismatch():
        """raw_check_key says the halves do not belong together"""
        for me, st in keyobj(w):
            s = st.fork()
            o = w.e.o(me, s)
            x_, y_ = App('input', 'X', 32), App('input', 'Y', 32)
            s.heap[me.addr] = o.with_attr('pubkey_x', x_).with_attr(
                'pubkey_y', y_)
            no = yes = 0
            for r in w.call(me, 'has_valid_keys', [], st=s):
                bad = [v for f, v in r.st.facts.items()
                       if isinstance(f, App) and f.op == 'badkeys']
                if not r.ok:
                    w.fail(r, 'checking keys raises %s' % r.exc_name)
                t = w.truthy(r.st, r.val)
                if True in t and (not bad or bad[0] is not False):
                    w.fail(r, 'keys that do not belong together count as '
                              'valid')
                no += t == {False}
                yes += t == {True}
            if not no or not yes:
                raise Fail('the key check does not tell good from bad keys')
    x.ob('ECCx/mismatch', mismatch)

    def generated():
        n = 0
        for o in oks(w.run('cryptography:ECCx', [NONE])):
            n += 1
            priv = w.val(o.val, 'raw_privkey', o.st)
            pub = w.val(o.val, 'raw_pubkey', o.st)
            if not (isinstance(priv, App) and priv.op == 'fresh'):
                w.fail(o, 'the generated key is %s' % show(priv))
            if w.e.models.len_of(priv, o.st) != 32:
                w.fail(o, 'a generated private key may not have 32 bytes')
            if pub != pub_of_priv(priv):
                w.fail(o, 'the public key is %s' % show(pub))
            for ev in o.st.ev:
                if ev[0] == 'keygen' and ev[2] != C('secp256k1'):
                    w.fail(o, 'a key is generated on curve %s'
                           % show(ev[2]))
        return '%d paths' % n
    x.ob('ECCx/generated', generated)

    def uses():
        for me, st in keyobj(w):
            for o in oks(w.call(me, 'sign', [MSG], st=st)):
                if o.frozen() != App('ecsign', App('privkey', PRIV),
                                     digest_of(MSG), NONE):
                    w.fail(o, 'signs with %s' % show(o.frozen()))
                for o2 in w.call(me, 'verify', [o.val, MSG], st=o.st):
                    if not o2.ok or w.truthy(o2.st, o2.val) != {True}:
                        w.fail(o2, 'does not verify its own signature')
    x.ob('ECCx/sign-verify', uses)

    def seeds():
        for f, op in (('mk_privkey', 'keccak256'), ('sha3', 'sha3_256')):
            for v in (Sym('SEED', ['bytes']), Sym('SEED', ['str'])):
                arg = v if 'bytes' in v.types else App(
                    'encode', C('utf-8'), C('strict'), v)
                for o in oks(w.run('cryptography:' + f, [v])):
                    if o.frozen() not in (App(op, arg), App(op, enc(v))):
                        w.fail(o, '%s gives %s' % (f, show(o.frozen())))
    x.ob('seed-and-hash', seeds)

    def length():
        K = Sym('K', ['bytes'])
        for o in w.run('cryptography:verify_pubkey', [K]):
            r = w.ask(o.st, '==', App('len', K), C(64))
            if o.ok and r != {True}:
                w.fail(o, 'a public key of another length passes')
            if not o.ok and r != {False}:
                w.fail(o, 'a 64-byte public key is refused')
            if not o.ok and not is_exc(w, o, 'InvalidKeys'):
                w.fail(o, 'a bad public key raises %s' % o.exc_name)
    x.ob('verify_pubkey', length)


def enc(v):
    return App('encode', 'utf-8', 'strict', v)

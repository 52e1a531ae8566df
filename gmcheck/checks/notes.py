"""Rules about promissory notes."""
from . import prop
from .common import *  # noqa: F401,F403
from .common import (
    App, C, FALSE, Fail, NONE, NT, R, Ref, Sym, TRUE, Tup, Undecided, cat,
    is_exc, oks, ops, show)
from .tasks import TTC, deep
from ..dom import mk_slc

SRV = 'message.concents:SubtaskResultsVerify'
NOTE = 'datastructures.promissory:PromissoryNote'
NOTESIG = 'datastructures.promissory:PromissoryNoteSig'
KEY = App('input', 'ETHKEY', 32)


def addr(name):
    return cat(C('0x'), Sym(name, ('str',)))


def body(a):
    """An address without its prefix"""
    if isinstance(a, App) and a.op == 'cat' and a.args[0] == C('0x'):
        return cat(*a.args[1:])
    return mk_slc(a, ('s', 2), ('e', 0))


def hexed(parts):
    """Bytes a text of hexadecimal pieces stands for, as list"""
    out = []
    for p in parts:
        if isinstance(p, App) and p.op == 'cat':
            out += hexed(p.args)
        elif isinstance(p, App) and p.op == 'hex':
            out += raw(p.args[0])
        elif isinstance(p, App) and p.op == 'slc' and p.args[1:] == (
                ('s', 2), ('e', 0)) and isinstance(p.args[0], App) and \
                p.args[0].op == 'checksum':
            out += hexed([p.args[0].args[0]])
        elif isinstance(p, C) and isinstance(p.v, str):
            try:
                out.append(C(bytes.fromhex(p.v)))
            except ValueError:
                out.append(p)
        else:
            out.append(App('hexbytes', p))
    return out


def raw(b):
    if isinstance(b, App) and b.op == 'cat':
        return [y for p in b.args for y in raw(p)]
    if isinstance(b, App) and b.op in ('unhex', 'hexbytes'):
        return hexed([b.args[0]])
    return [b]


def joined(parts):
    """Adjacent constants merged"""
    return cat(*parts) if parts else C(b'')


def signed(msg):
    """The content (as a concatenation of bytes) of an Ethereum message"""
    if not (isinstance(msg, App) and msg.op == 'ethmsg' and
            len(msg.args) == 1):
        raise Undecided('what is signed cannot be followed: %s' % show(msg))
    a = msg.args[0]
    if isinstance(a, App) and a.op == 'kw':
        name, a = a.args[0], a.args[1]
        if name in ('hexstr', C('hexstr')):
            parts = list(a.args) if isinstance(
                a, App) and a.op == 'cat' else [a]
            if parts[0] == C('0x'):
                parts = parts[1:]
            elif isinstance(parts[0], C) and parts[0].v[:2] == '0x':
                parts[0] = C(parts[0].v[2:])
            return joined(hexed(parts))
        if name not in ('primitive', C('primitive')):
            raise Fail('a note is signed as text: %s' % show(msg)[:300])
    return joined(raw(a))


def reference(contract, payer, payee, amount, subtask):
    u = App('uuidbytes', App('uuid', subtask))
    return joined(hexed([body(contract), body(payer), body(payee)]) + [
        App('pk', 'u32', '>', amount), u, C(b'\0' * 16)])


def is_sig(w, v, content, key):
    """Is v the (v, r, s) triple of a signature of content by key?"""
    if not isinstance(v, (NT, Tup)) or len(v.items) != 3:
        return 'a signature is not a triple: %s' % show(v)[:200]
    for it, name in zip(v.items, 'vrs'):
        if name != 'v':
            if not (isinstance(it, App) and it.op == 'pk' and
                    it.args[0] == 'u32' and it.args[1] == '>'):
                return '%s is not 32 big-endian bytes: %s' % (
                    name, show(it)[:200])
            it = it.args[2]
        if not (isinstance(it, App) and it.op == 'item' and
                it.args[1] == C(name) and isinstance(it.args[0], App) and
                it.args[0].op == 'ethsign'):
            return '%s is not %s of an Ethereum signature: %s' % (
                name, name, show(it)[:200])
        msg, k = it.args[0].args
        if k != key:
            return 'signed with another key: %s' % show(k)[:200]
        got = signed(msg)
        if got != content:
            return 'signed content is %s instead of %s' % (
                show(got), show(content))
    return None


def folded(a):
    while isinstance(a, App) and a.op in ('lower', 'checksum', 'mcall') and \
            a.args:
        if a.op == 'mcall' and a.args[1:] not in ((C('lower'),),
                                                  ('lower',)):
            break
        a = a.args[0] if a.op == 'mcall' else a.args[-1]
    return a


def recovered(o):
    """[(address, message, sig)] this path knows to be good"""
    out = []
    for atom, val in o.st.facts.items():
        if val is True and isinstance(atom, App) and atom.op == 'eq':
            for a, b in (atom.args, atom.args[::-1]):
                b = folded(b)
                if isinstance(b, App) and b.op == 'ethrecover':
                    out.append((folded(a), b.args[0], b.args[1]))
    return out


def parts_of(sig):
    if isinstance(sig, (NT, Tup)):
        return list(sig.items)
    return [App('item', sig, C(i)) for i in range(3)]


def accepts(o, content, payer, sig):
    for a, m, s in recovered(o):
        if a == folded(payer) and signed(m) == content and (
                s == sig or parts_of(s) == parts_of(sig)):
            return True
    return False


# ------------------------------------------------------------------ C27

@prop('C27')
def c27(x, w):
    x.rule('The term signed by a note with independent symbolic contract, '
           'payer, payee, amount and subtask must equal the reference '
           'concatenation; the triple returned must be v and the 32-byte '
           'big-endian r and s of the Ethereum signature over it; every '
           'path of sig_valid that returns true must have equated the payer '
           'with the address recovered from the given triple over that '
           'content, every path that returns false the opposite or a '
           'missing signature, and other shapes must raise TypeError.')
    x.assume('Ethereum primitives (message hashing, signing, recovering) '
             'are uninterpreted; addresses start with 0x.')
    A = [addr('PAYER'), addr('PAYEE'), Sym('AMOUNT', ('int',)),
         Sym('SUBTASK', ('str',)), addr('CONTRACT')]
    names = ('address_from', 'address_to', 'amount', 'subtask_id',
             'contract_address')
    want = reference(A[4], A[0], A[1], A[2], A[3])

    def make(kws):
        st = w.e.state()
        cls = w.cls(NOTE)
        outs = w.e.run(cls, [] if kws else A, dict(zip(names, A)) if kws
                       else {}, st)
        if len(outs) != 1 or not outs[0].ok:
            raise Fail('a note cannot be made: %s' % outs[:3])
        return outs[0].val, outs[0].st

    def terms():
        for kws in (False, True):
            me, st = make(kws)
            for nm, v in zip(names, A):
                if w.val(me, nm, st) != v:
                    raise Fail('%s of a note is %s' % (nm, show(w.val(
                        me, nm, st))))
    x.ob('terms', terms)

    def sign():
        me, st = make(True)
        for o in oks(w.call(me, 'sign', [KEY], st=st)):
            r = is_sig(w, w.e.freeze(o.val, o.st), want, KEY)
            if r:
                w.fail(o, r)
    x.ob('sign', sign)

    def changed(i):
        """the content follows the terms, also after it was signed once"""
        name = names[i]
        new = addr('LATER') if i in (0, 1, 4) else Sym(
            'LATER', ('int',) if i == 2 else ('str',))
        B = A[:i] + [new] + A[i + 1:]
        later = reference(B[4], B[0], B[1], B[2], B[3])
        me, st = make(True)
        n = 0
        for o in oks(w.call(me, 'sign', [KEY], st=st)):
            for s in w.set(me, name, new, o.st):
                for o2 in oks(w.call(me, 'sign', [KEY], st=s)):
                    n += 1
                    r = is_sig(w, w.e.freeze(o2.val, o2.st), later, KEY)
                    if r:
                        w.fail(o2, 'after %s was changed: %s' % (name, r))
        if not n:
            raise Undecided('%s can not be changed' % name)
    for i, name in enumerate(names):
        x.ob('changed/' + name, changed, i)

    def valid(sig, exact):
        me, st = make(True)
        outs = oks(w.call(me, 'sig_valid', [sig], st=st, implicit='all'))
        seen = set()
        for o in outs:
            if not o.ok:
                continue
            for t in w.truthy(o.st, o.val):
                seen.add(t)
                if len(w.truthy(o.st, o.val)) > 1:
                    raise Undecided('result is %s' % show(o.val))
                if t and not accepts(o, want, A[0], sig):
                    w.fail(o, 'a note signature counts as valid without '
                              'the payer having signed its terms')
                if not t and exact and not any(
                        v is False and isinstance(k, App) and k.op == 'eq'
                        and any(ops(k, 'ethrecover'))
                        for k, v in o.st.facts.items()):
                    w.fail(o, 'a signature by the payer counts as invalid')
        if exact and seen != {True, False}:
            raise Fail('sig_valid of a triple is always %s' % seen)
    x.ob('valid/triple', valid, Tup(Sym('v', ('int',)), Sym('r', (
        'bytes',)), Sym('s', ('bytes',))), True)
    x.ob('valid/list', valid, Sym('SIGNATURE', ('list', 'tuple')), False)

    def missing():
        me, st = make(True)
        for o in w.call(me, 'sig_valid', [NONE], st=st):
            if not o.ok:
                w.fail(o, 'a missing signature raises %s' % o.exc_name)
            if w.truthy(o.st, o.val) != {False}:
                w.fail(o, 'a missing signature is valid')
    x.ob('valid/missing', missing)

    def malformed(n):
        me, st = make(True)
        sig = Tup(*[Sym('s%d' % i) for i in range(n)])
        for o in w.call(me, 'sig_valid', [sig], st=st):
            if o.ok or o.exc_name != 'TypeError':
                w.fail(o, 'a signature of %d parts %s' % (
                    n, 'is taken' if o.ok else 'raises ' + o.exc_name))
    for n in (1, 2, 4):
        x.ob('valid/%d-parts' % n, malformed, n)

    def noniterable():
        me, st = make(True)
        sig = Sym('SIGNATURE', ('int',))
        for o in w.call(me, 'sig_valid', [sig], st=st, implicit='all'):
            if o.ok and w.truthy(o.st, o.val) != {False} or \
                    not o.ok and o.exc_name != 'TypeError':
                w.fail(o, 'a number as signature %s' % (
                    'is taken' if o.ok else 'raises ' + o.exc_name))
    x.ob('valid/number', noniterable)


# ------------------------------------------------------------------ C28

@prop('C28')
def c28(x, w):
    x.rule('For a symbolic assignment and verification request: the field '
           'set by signing must hold the triple over the reference note '
           'content (requestor to provider, requestor or provider to the '
           'deposit contract, price, subtask id of that very assignment), '
           'made with the given key; every path of verifying that returns '
           'true must have equated the payer with the address recovered '
           'from that field over the same content; signing all sets both, '
           'verifying all requires both.')
    x.assume('Ethereum primitives are uninterpreted; addresses start with '
             '0x.')
    contract = addr('CONTRACT')

    def setup(q, own=None, conc=None):
        st = w.e.state()
        node = deep(w, q, 'M', st, opaque=False)
        t = node.assignment()
        price, sub = Sym('PRICE', ('int',)), Sym('SUBTASK', ('str',))
        rkey = Sym('RKEY', ('str',))
        pkey = addr('PROVIDER')

        def put(ref, name, val):
            st.heap[ref.addr] = w.e.o(ref, st).with_attr(name, val)
        put(t.ref, 'price', price)
        put(t.ref, 'compute_task_def', w.e.new_dict(st, [
            (C('task_id'), Sym('TASK', ('str',))), (C('subtask_id'), sub)]))
        put(t.ref, 'requestor_ethereum_public_key', rkey)
        put(t.offer, 'provider_ethereum_address', pkey)
        if own is not None:
            put(node.ref, 'promissory_note_sig', own)
        if conc is not None:
            put(node.ref, 'concent_promissory_note_sig', conc)
        st.facts[App('truth', sub)] = True
        return st, node, t, price, sub, pkey

    def payer_of(q, t, st, pkey):
        if q != TTC:
            return pkey
        r = App('checksum', App('hex', mk_slc(App('keccak256', App(
            'hexbytes', Sym('RKEY', ('str',)))), ('s', 12), ('e', 0))))
        return r

    def note(q, role, t, st, price, sub, pkey):
        payer = payer_of(q, t, st, pkey)
        payee = pkey if role == 'own' else contract
        return payer, reference(contract, payer, payee, price, sub)
    SLOT = {'own': 'promissory_note_sig',
            'concent': 'concent_promissory_note_sig'}

    def address():
        st, node, t, price, sub, pkey = setup(TTC)
        for s, v in w.attr(t.ref, 'requestor_ethereum_address', st):
            if v != payer_of(TTC, t, st, pkey):
                raise Undecided('address of the requestor is %s' % show(v))
        for s, v in w.attr(t.ref, 'provider_ethereum_address', st):
            if v != pkey:
                raise Fail('address of the provider is %s' % show(v))

    def sign(q, method, roles):
        st, node, t, price, sub, pkey = setup(q)
        other = {r: w.val(node.ref, SLOT[r], st) for r in SLOT
                 if r not in roles and (q == TTC or r == 'concent')}
        n = 0
        for o in oks(w.call(node.ref, method, [], {
                'deposit_contract_address': contract,
                'private_key': KEY}, st=st, implicit='none')):
            if not o.ok:
                continue
            n += 1
            for role in roles:
                payer, want = note(q, role, t, o.st, price, sub, pkey)
                got = w.val(node.ref, SLOT[role], o.st)
                r = is_sig(w, got, want, KEY)
                if r:
                    w.fail(o, '%s of %s.%s: %s' % (SLOT[role], q, method,
                                                   r))
            for r, v in other.items():
                if w.val(node.ref, SLOT[r], o.st) != v:
                    w.fail(o, '%s.%s changes %s' % (q, method, SLOT[r]))

    def verify(q, method, roles, missing=None):
        sigs = {r: Tup(*[Sym('%s:%s' % (r, p), (t,)) for p, t in (
            ('v', 'int'), ('r', 'bytes'), ('s', 'bytes'))]) for r in SLOT}
        if missing:
            sigs[missing] = NONE
        st, node, t, price, sub, pkey = setup(
            q, sigs['own'] if q == TTC else None, sigs['concent'])
        seen = set()
        for o in oks(w.call(node.ref, method, [], {
                'deposit_contract_address': contract}, st=st,
                implicit='none')):
            if not o.ok:
                continue
            ts = w.truthy(o.st, o.val)
            if len(ts) != 1:
                raise Undecided('result is %s' % show(o.val))
            t1 = ts.pop()
            seen.add(t1)
            if t1:
                for role in roles:
                    payer, want = note(q, role, t, o.st, price, sub, pkey)
                    if not accepts(o, want, payer, sigs[role]):
                        w.fail(o, '%s.%s is true although %s is not a '
                                  'signature of the payer over its note'
                               % (q, method, SLOT[role]))
            elif not missing and not any(
                    v is False and isinstance(k, App) and k.op == 'eq' and
                    ops(k, 'ethrecover') for k, v in o.st.facts.items()):
                w.fail(o, '%s.%s is false for good signatures' % (
                    q, method))
        if missing:
            if seen != {False}:
                raise Fail('%s.%s without %s is %s' % (q, method,
                                                       SLOT[missing], seen))
        elif seen != {True, False}:
            raise Fail('%s.%s is always %s' % (q, method, seen))
    x.ob('address', address)
    for q, kinds in ((TTC, ('own', 'concent', 'all')), (SRV, ('concent',))):
        for k in kinds:
            mid = {'own': 'promissory_note', 'all': 'all_promissory_notes',
                   'concent': 'concent_promissory_note'}[k]
            roles = ('own', 'concent') if k == 'all' else (k,)
            x.ob('sign/%s/%s' % (q, k), sign, q, 'sign_' + mid, roles)
            x.ob('verify/%s/%s' % (q, k), verify, q, 'verify_' + mid, roles)
            for m in roles:
                x.ob('verify/%s/%s/no-%s' % (q, k, m), verify, q,
                     'verify_' + mid, roles, m)

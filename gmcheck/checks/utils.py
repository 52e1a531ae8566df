"""Rules about ids, encodings, masks, durations, amounts and secrets."""
import ast
from fractions import Fraction

from . import prop
from .common import *  # noqa: F401,F403
from .common import (
    App, C, FALSE, Fail, Many, NONE, NT, R, Ref, Sym, TRUE, Tup, Undecided, cat,
    is_exc, ops, show, subterms)
from ..dom import lin_add, lin_of, mk_lin, mk_slc, vec_of
from ..world import PRIV
from .data import (
    TYPES, VALIDATORS, give, good_record, make_container, required,
    typed_as, values)
from .fields import FTT
from .frame import typed
from .tasks import TTC, num_of

RCT = 'message.tasks:ReportComputedTask'

SEED = Sym('SEED', ['bytes'])
HEX = Sym('HEX', ['str'])
ID = Sym('ID', ['str'])


def expect(w, o, got, want, what, vocabulary=()):
    """The value on path o must be `want`. A different term made only of
    operations whose meaning is known is another value; with other
    operations in it nothing is known."""
    if got == want or w.proves(o.st, '==', got, want):
        return
    known = set(vocabulary) | {t.op for t in subterms(want)
                               if isinstance(t, App)} | {
        'slc', 'cat', 'encode', 'hex', 'unhex', 'frombytes', 'lin',
        'tobytes', 'strop', 'bytesop', 'uuidattr', 'len'}
    strange = sorted({t.op for t in subterms(got)
                      if isinstance(t, App) and t.op not in known})
    why = '%s is %s instead of %s' % (what, show(got), show(want))
    if strange:
        raise Undecided('%s (%s)' % (why, ', '.join(strange)))
    w.fail(o, why)


# ------------------------------------------------------------------ C36

def node_of(seed):
    return App('frombytes', C('big'), mk_slc(seed, ('s', 0), ('s', 6)))


@prop('C36')
def c36(x, w):
    x.rule('The generators are run on symbolic seeds and ids: every path '
           'that returns gives the text of a time based UUID whose node is '
           'the big-endian value of the first six seed bytes, or the node '
           'of the other id. The checks are run on symbolic ids and seeds: '
           'the true paths know that the id is a UUID and that its node is '
           'that value, the false paths know one of the opposites, and '
           'text that is no UUID raises nothing.')
    e = w.e

    def generated(fn, arg, node, bad=()):
        """bad: terms whose failure may make the generator fail"""
        n = 0
        st = e.state()
        for o in w.run(fn, [arg], st=st, implicit='all'):
            if not o.ok:
                if not refusal(o, bad + (App('uuid1', node),)):
                    w.fail(o, 'no id is generated')
                continue
            n += 1
            v = e.freeze(o.val, o.st)
            us = ops(v, 'uuid1')
            if len(us) != 1 or v != App('str', us[0]):
                if not us and not ops(v, 'mcall') and not ops(v, 'call'):
                    w.fail(o, 'the id is %s' % show(v))
                raise Undecided('the id is %s' % show(v))
            expect(w, o, us[0].args[0], node, 'the node of the id',
                   ('uuidnode', 'uuid'))
        if not n:
            raise Fail('no id is ever generated')
        return '%d paths' % n

    def refusal(o, terms):
        return any(isinstance(k, App) and k.op == 'raises' and v is True and
                   k.args[1] in terms for k, v in o.st.facts.items())

    G = 'idgenerator:'
    x.ob('generate_id', generated, G + 'generate_id', SEED, node_of(SEED))
    x.ob('generate_id/key', lambda: generated(
        G + 'generate_id', App('input', 'KEY', 64),
        node_of(App('input', 'KEY', 64))))
    x.ob('generate_id_from_hex', generated, G + 'generate_id_from_hex', HEX,
         node_of(App('unhex', HEX)), (App('unhex', HEX),))
    x.ob('generate_new_id_from_id', generated,
         G + 'generate_new_id_from_id', ID,
         App('uuidnode', App('uuid', ID)), (App('uuid', ID),))

    def nodes(fn, arg, node, bad=()):
        n = 0
        for o in w.run(fn, [arg], st=e.state(), implicit='all'):
            if not o.ok:
                if not refusal(o, bad):
                    w.fail(o, 'no node')
                continue
            n += 1
            expect(w, o, e.freeze(o.val, o.st), node, 'the node')
        if not n:
            raise Fail('there is never a node')
    x.ob('seed_to_node', nodes, G + 'seed_to_node', SEED, node_of(SEED))
    x.ob('hex_seed_to_node', nodes, G + 'hex_seed_to_node', HEX,
         node_of(App('unhex', HEX)), (App('unhex', HEX),))

    def checked(fn, id_, seed, node, want, bad=()):
        """want: None (id is no UUID), True (node is the seed's), False"""
        st = e.state()
        isid = App('uuid', id_)
        st.facts[App('raises', e.exc_class('ValueError'), isid)] = \
            want is None
        if want is not None:
            theirs = App('uuidnode', isid)
            st = next(s for s, same in e.eq(node, theirs, st)
                      if same is want)
        n = 0
        for o in w.run(fn, [id_, seed], st=st, implicit='all'):
            if not o.ok:
                if not refusal(o, bad):
                    w.fail(o, 'the check raises')
                continue
            n += 1
            got = w.truthy(o.st, o.val)
            if got != {want is True}:
                if got == {True, False} and not w.topped(o):
                    raise Fail('the check of an id %s can be %s: %s' % (
                        'that is no UUID' if want is None else
                        'with the node of the seed' if want else
                        'with another node', show(o.frozen()),
                        w.describe(o)), o.where)
                w.fail(o, 'the check of an id %s is %s' % (
                    'that is no UUID' if want is None else
                    'with the node of the seed' if want else
                    'with another node', show(o.frozen())))
        if not n:
            raise Fail('the check never returns')

    for want in (None, True, False):
        name = {None: 'no-uuid', True: 'same', False: 'other'}[want]
        x.ob('check_id_seed/' + name, checked, G + 'check_id_seed', ID,
             SEED, node_of(SEED), want)
        x.ob('check_id_seed/key/' + name, checked, G + 'check_id_seed', ID,
             App('input', 'KEY', 64), node_of(App('input', 'KEY', 64)),
             want)
        x.ob('check_id_hex_seed/' + name, checked, G + 'check_id_hex_seed',
             ID, HEX, node_of(App('unhex', HEX)), want,
             (App('unhex', HEX),))

    import uuid
    text = 'a5b1c2d3-0e4f-11ea-8d71-0242ac130003'
    node = bytes.fromhex('0242ac130003')
    fixed = {
        'own': (text, node + b'rest', True),
        'upper': (text.upper(), node + b'rest', True),
        'urn': ('urn:uuid:' + text, node, True),
        'braces': ('{%s}' % text, node, True),
        'no-dashes': (text.replace('-', ''), node + bytes(58), True),
        'zero': ('a5b1c2d3-0e4f-11ea-8d71-000000000003',
                 bytes(5) + b'\3', True),
        'short-seed': (text[:-12] + '00000242ac13', node[:4], True),
        'last-bytes': (text, b'rest' + node, False),
        'reversed': (text, node[::-1], False),
        'none': (text, b'', False),
        'one-bit': (text, node[:5] + b'\2' + bytes(58), False),
        'tail-only': ('x-' + text[-12:], node, False),
        'node-only': (text[-12:], node, False),
        'too-long': (text + '0', node, False),
        'too-short': (text[1:], node, False),
        'no-hex': ('g' + text[1:], node, False),
        'text': ('', node, False),
        'upper-node': (text[:24] + text[24:].upper(), node, True),
    }

    def constant(name, hexed):
        id_, seed, want = fixed[name]
        try:
            assert (uuid.UUID(id_).node == int.from_bytes(
                seed[:6], 'big')) is want
        except ValueError:
            assert not want
        args = [C(id_), C(seed.hex() if hexed else seed)]
        n = 0
        for o in w.run(G + ('check_id_hex_seed' if hexed else
                            'check_id_seed'), args, st=e.state(),
                       implicit='all'):
            n += 1
            got = w.truthy(o.st, o.val) if o.ok else None
            if got != {want}:
                w.fail(o, 'the check of %r with the seed %s is %s' % (
                    id_, seed.hex(), show(o.val) if o.ok else o.exc_name))
        if not n:
            raise Undecided('no outcome')
    for name in fixed:
        x.ob('fixed/' + name, constant, name, False)
        x.ob('fixed/hex/' + name, constant, name, True)

    def proves(gen, check, seed, bad=()):
        """what is generated passes the check"""
        n = 0
        for o in w.run(G + gen, [seed], st=e.state(), implicit='all'):
            if not o.ok:
                continue
            for o2 in w.run(G + check, [o.val, seed], st=o.st,
                            implicit='all'):
                n += 1
                if not o2.ok or w.truthy(o2.st, o2.val) != {True}:
                    w.fail(o2, 'a generated id fails the check')
        if not n:
            raise Fail('no id is ever generated')
    x.ob('own/binary', proves, 'generate_id', 'check_id_seed', SEED)
    x.ob('own/hex', proves, 'generate_id_from_hex', 'check_id_hex_seed',
         HEX)

    def derived():
        n = 0
        for o in w.run(G + 'generate_id', [SEED], st=e.state(),
                       implicit='all'):
            if not o.ok:
                continue
            for o2 in w.run(G + 'generate_new_id_from_id', [o.val],
                            st=o.st, implicit='all'):
                if not o2.ok:
                    continue
                for o3 in w.run(G + 'check_id_seed', [o2.val, SEED],
                                st=o2.st, implicit='all'):
                    n += 1
                    if not o3.ok or w.truthy(o3.st, o3.val) != {True}:
                        w.fail(o3, 'an id made from a generated one fails '
                               'the check')
        if not n:
            raise Fail('no id is ever made from another one')
    x.ob('own/derived', derived)


# ------------------------------------------------------------------ C37

@prop('C37')
def c37(x, w):
    x.rule('The helpers are run on symbolic values of every type, composed '
           'with each other: decoding what encoding gives must be the very '
           'term put in, on every path; the encoded UUID must be its bytes '
           'and sixteen zero bytes; the address must be the checksummed '
           'form of the last twenty bytes of the hash of the key.')
    e = w.e
    U = 'utils:'
    B = Sym('B', ['bytes'])

    def roundtrip(v, bound=None):
        st = e.state()
        if bound is not None:
            st.iv[((App('len', v), 1),)] = bound
        n = 0
        for o in w.run(U + 'encode_hex', [v], st=st, implicit='all'):
            if not o.ok:
                w.fail(o, 'bytes can not be encoded')
            t = e.freeze(o.val, o.st)
            expect(w, o, t, App('hex', v) if not isinstance(v, C)
                   else C(v.v.hex()), 'the text')
            for o2 in w.run(U + 'decode_hex', [o.val], st=o.st,
                            implicit='all'):
                if not o2.ok:
                    w.fail(o2, 'what was encoded can not be decoded')
                n += 1
                expect(w, o2, e.freeze(o2.val, o2.st), v,
                       'what was decoded')
        if not n:
            raise Undecided('no outcome')
    x.ob('hex/bytes', roundtrip, B)
    x.ob('hex/bytearray', roundtrip, Sym('B', ['bytearray']))
    x.ob('hex/some-bytes', roundtrip, B, (1, False, None, False))
    x.ob('hex/long', roundtrip, B, (10 ** 6, False, None, False))
    x.ob('hex/empty', roundtrip, C(b''))
    x.ob('hex/zero', roundtrip, C(b'\0'))
    x.ob('hex/zero-first', roundtrip, C(b'\0\x0a\xff'))

    def other(t):
        v = NONE if t == 'None' else Sym('V', [t])
        for o in w.run(U + 'encode_hex', [v], st=e.state(),
                       implicit='all'):
            if o.ok:
                w.fail(o, 'a value of type %s is encoded' % t)
            if o.exc_name != 'TypeError':
                w.fail(o, 'a value of type %s raises %s' % (t, o.exc_name))
    for t in ('None', 'bool', 'int', 'float', 'list', 'dict', 'tuple'):
        x.ob('hex/other/' + t, other, t)

    uid = App('uuid', Sym('U', ['str']))
    ZEROS = C(b'\0' * 16)

    def packed():
        n = 0
        for o in w.run(U + 'uuid_to_bytes32', [uid], st=e.state(),
                       implicit='all'):
            if not o.ok:
                w.fail(o, 'a UUID can not be encoded')
            expect(w, o, e.freeze(o.val, o.st),
                   cat(App('uuidbytes', uid), ZEROS), 'the encoded UUID')
            for o2 in w.run(U + 'bytes32_to_uuid', [o.val], st=o.st,
                            implicit='all'):
                if not o2.ok:
                    w.fail(o2, 'an encoded UUID can not be decoded')
                n += 1
                expect(w, o2, e.freeze(o2.val, o2.st), uid,
                       'the decoded UUID', ('uuid', 'uuidfrombytes',
                                            'uuidbytes'))
        if not n:
            raise Undecided('no outcome')

    def unpacked():
        raw = App('input', 'U', 16)
        for o in w.run(U + 'bytes32_to_uuid', [cat(raw, ZEROS)],
                       st=e.state(), implicit='all'):
            if not o.ok:
                w.fail(o, '16 bytes and zeros are no UUID')
            for o2 in w.run(U + 'uuid_to_bytes32', [o.val], st=o.st,
                            implicit='all'):
                if not o2.ok:
                    w.fail(o2, 'a decoded UUID can not be encoded')
                expect(w, o2, e.freeze(o2.val, o2.st), cat(raw, ZEROS),
                       'the UUID encoded again', ('uuidfrombytes',
                                                  'uuidbytes'))
    x.ob('uuid/encoded', packed)
    x.ob('uuid/decoded', unpacked)

    def address(key, raw):
        h = App('keccak256', raw)
        want = App('checksum', App('hex', mk_slc(h, ('s', 12), ('e', 0))))
        n = 0
        for o in w.run(U + 'pubkey_to_address', [key], st=e.state(),
                       implicit='all'):
            if not o.ok:
                if not any(isinstance(k, App) and k.op == 'raises' and
                           v is True for k, v in o.st.facts.items()):
                    w.fail(o, 'a key has no address')
                continue
            n += 1
            expect(w, o, e.freeze(o.val, o.st), want, 'the address', (
                'checksum', 'keccak256', 'hexbytes', 'sha3_256', 'sha256'))
        if not n:
            raise Fail('no key has an address')
    x.ob('address/bytes', address, App('input', 'KEY', 64),
         App('input', 'KEY', 64))
    x.ob('address/hex', address, HEX, App('hexbytes', HEX))
    x.ob('address/encoded', address, App('hex', App('input', 'KEY', 64)),
         App('input', 'KEY', 64))


# ------------------------------------------------------------------ C41

def inductive(w, o):
    """Was this error raised by a part that has its own rules (what is
    nested, the validator of a key that is not known here)?"""
    return any(isinstance(t, App) and t.op == 'exc' for t in subterms(
        w.e.freeze(o.exc.attrs.get('args', NONE), o.st)))


def part_of(v, whole):
    """Is v whole, or was it taken out of it?"""
    while v != whole:
        if not (isinstance(v, App) and v.op in ('elem', 'item', 'slc')):
            return False
        v = v.args[0]
    return True


def occurs(v, t):
    return any(s == v for s in subterms(t))


@prop('C41')
def c41(x, w):
    x.rule('Every abstract path of loading and dumping each field of each '
           'kind of message, of building each container and structured '
           'dictionary, and of each validator, with values of every type, '
           'that ends in a field error: the field it carries is the one '
           'that was given this value, and the value is the given one (or '
           'the offending part of it). The text of a field error with '
           'symbolic field and value contains both. Every call that makes '
           'a field error, reached or not, hands over a field and a value.')
    x.assume('errors about nested messages and containers are judged where '
             'these are built themselves')
    e = w.e
    names = set()
    for t in (R.FIELDS, R.CONTAINERS, R.RECORDS):
        for fs in t.values():
            names |= set(fs)

    def judge(o, given):
        """given: {name: [acceptable values]}"""
        if o.ok or not is_exc(w, o, 'FieldError'):
            return 0
        raw = o.exc.attrs.get('args')
        field = o.exc.attrs.get('field')
        value = o.exc.attrs.get('value')
        if field is None and value is None and inductive(w, o):
            return 0
        if field is None or value is None:
            if inductive(w, o):
                return 0
            w.fail(o, 'a field error without field or value')
        f = e.freeze(field, o.st)
        v = e.freeze(value, o.st)
        if f == C('<unknown>') or v == C('<unknown>'):
            w.fail(o, 'a field error without field or value (%s)' % show(
                raw))
        if isinstance(f, C) and f.v in given:
            ok = given[f.v]
            if any(part_of(v, e.freeze(g, o.st)) for g in ok):
                return 1
            w.fail(o, 'the field error about %s has the value %s instead '
                   'of %s' % (f.v, show(v), ' or '.join(
                       show(e.freeze(g, o.st)) for g in ok)))
        # a part of a given value: a name of the library, or one received
        parts = [e.freeze(g, o.st) for gs in given.values() for g in gs]
        whole = [p for p in parts if isinstance(p, (App, Tup)) or
                 isinstance(p, Sym) and (p.types is None or p.types & {
                     'list', 'dict', 'other'})]
        if whole and (isinstance(f, C) and f.v in names or not isinstance(
                f, C)):
            if v == NONE or any(part_of(v, p) or v in set(subterms(p))
                                for p in whole):
                return 1
        w.fail(o, 'the field error names %s with the value %s, but %s was '
               'given' % (show(f), show(v), ', '.join(
                   '%s=%s' % (k, '/'.join(show(e.freeze(g, o.st))
                                          for g in gs))
                   for k, gs in sorted(given.items()))))

    def received(num, f, t):
        v = typed_as(t)
        n = 0
        for o in one_field(w, num, f, v, implicit='all'):
            n += judge(o, {f: [v]})
        return '%d field errors' % n

    def sent(num, q, f, t):
        v = typed_as(t)
        st = e.state()
        a = typed(w, q, st, f)
        a[f] = v
        m = w.open_msg(w.cls(q), 'M', st, num=num, attrs=a, opaque=False)
        n = 0
        for o in w.call(m, 'slots', [], st=st, implicit='all'):
            n += judge(o, {f: [v]})
        return '%d field errors' % n

    for num, q, cls in w.kinds():
        for f in R.FIELDS[q]:
            for t in TYPES:
                x.ob('%s.%s/received/%s' % (q, f, t), received, num, f, t)
                x.ob('%s.%s/sent/%s' % (q, f, t), sent, num, q, f, t)

    # -------- structured content
    def structured(num, make):
        st = e.state()
        fields, given = make(st)
        src = e.new_list(st, [Tup(C(k), v) for k, v in fields])
        n = 0
        for o in w.build(num, src, st=st, implicit='all'):
            n += judge(o, given)
            if 'subtask_id' in given:
                blamed(w, o, {k: given[k][0] for k in (
                    'task_id', 'subtask_id')}, given['requestor_id'][0])
        if not n:
            raise Fail('bad content raises no field error')
        return '%d field errors' % n

    def assignment(st):
        t, s, rid = (Sym('T', ['str']), Sym('S', ['str']),
                     Sym('RID', ['str']))
        ctd = e.new_dict(st, [(C('task_id'), t), (C('subtask_id'), s)])
        rids = ('requestor_id', rid)
        return [rids, ('compute_task_def', ctd)], {
            'task_id': [t], 'subtask_id': [s], 'requestor_id': [rid],
            'compute_task_def': [ctd]}
    x.ob('assignment/ids', structured, num_of(TTC), assignment)

    def unfit():
        """the ids of an assignment that is held"""
        st = e.state()
        fields, given = assignment(st)
        m = w.open_msg(w.cls(TTC), 'M', st, num=num_of(TTC),
                       attrs=dict(fields), opaque=False)
        n = 0
        for o in w.call(m, 'validate_taskid', [], st=st, implicit='try'):
            n += judge(o, given)
            blamed(w, o, {k: given[k][0] for k in (
                'task_id', 'subtask_id')}, given['requestor_id'][0])
        if not n:
            raise Fail('ids that do not fit raise no field error')
        return '%d field errors' % n
    x.ob('assignment/unfit', unfit)

    def files(st):
        c = Sym('CAT', ['str'])
        d = e.new_dict(st, [(C('path'), Sym('P', ['str'])),
                            (C('category'), c)])
        return [('files', e.new_list(st, [d]))], {'category': [c]}
    x.ob('token/category', structured, num_of(FTT), files)

    def peers(key, v):
        def make(st):
            items = dict([('address', Sym('A', ['str'])),
                          ('port', Sym('P', ['int'])),
                          ('node', e.new_dict(st, []))])
            if key == 'address':
                items = {'address': v, **items}
            items[key] = v
            d = e.new_dict(st, [(C(k), i) for k, i in items.items()])
            return [('peers', e.new_list(st, [d]))], {
                k: [i] for k, i in items.items()}
        return make
    for q in (q for n, q, c in w.kinds() if 'peers' in R.FIELDS[q]):
        for key, v in (('address', Sym('BAD', ['str'])),
                       ('port', Sym('BAD', ['str'])),
                       ('port', Sym('BAD', ['int'])),
                       ('node', Sym('BAD', ['str']))):
            x.ob('peers/%s/%s' % (key, show(v)), structured, num_of(q),
                 peers(key, v))

    # -------- containers, dictionaries, validators
    def container(cls, f, make):
        st = e.state()
        v, st = make(st)
        kws, st = required(w, cls, st, but=(f,))
        kws[f] = v
        n = 0
        for o in make_container(w, cls, kws, st):
            n += judge(o, {k: [i] for k, i in kws.items()})
        return '%d field errors' % n

    def unknown(cls):
        kws, st = required(w, cls, e.state())
        kws['unknown'] = Sym('V')
        n = 0
        for o in make_container(w, cls, kws, st):
            n += judge(o, {'unknown': [Sym('V')]})
        if not n:
            raise Fail('no field error for an unknown field')

    def missing(cls, f):
        kws, st = required(w, cls, e.state(), but=(f,))
        n = 0
        for o in make_container(w, cls, kws, st):
            n += judge(o, {f: [NONE]})
        if not n:
            raise Fail('no field error for the missing field %s' % f)

    for cls, fields in R.CONTAINERS.items():
        x.ob('%s/unknown' % cls, unknown, cls)
        for f, (kind, req, default) in fields.items():
            if req:
                x.ob('%s.%s/missing' % (cls, f), missing, cls, f)
            for label, make, verdict, kept in values(w, kind):
                x.ob('%s.%s/%s' % (cls, f, label), container, cls, f, make)

    def record(cls, f, make):
        st = e.state()
        v, st = make(st)
        items, st = good_record(w, cls, st, but=(f,))
        items = items + [(f, v)]
        args, kws = give(w, 'dict', items, st)
        w.top = w.cls(cls)
        try:
            outs = w.run(w.cls(cls), args, kws, st=st, implicit='all')
        finally:
            w.top = None
        n = 0
        for o in outs:
            n += judge(o, {k: [i] for k, i in items})
        return '%d field errors' % n
    for cls, keys in R.CHECKED_KEYS.items():
        for f, kind in keys.items():
            for label, make, verdict, kept in values(w, kind):
                x.ob('%s.%s/%s' % (cls, f, label), record, cls, f, make)

    def validator(fn, kws, make):
        st = e.state()
        v, st = make(st)
        kw = dict(kws, field_name=C('F'), value=v)
        n = 0
        for o in w.run(e.mod_attr('validators', fn), [], kw, st=st,
                       implicit='all'):
            n += judge(o, {'F': [v]})
        return '%d field errors' % n
    for i, (fn, kind, kws) in enumerate(VALIDATORS):
        for label, make, verdict, kept in values(w, kind):
            x.ob('%s-%d/%s' % (fn, i, label), validator, fn, kws, make)

    def ethsig(v):
        st = e.state()
        m = w.open_msg(w.cls(TTC), 'M', st, num=num_of(TTC), attrs={
            'requestor_ethereum_public_key': v}, opaque=False)
        n = 0
        for o in w.call(m, 'generate_ethsig', [PRIV], st=st):
            n += judge(o, {'requestor_ethereum_public_key': [v]})
        if not n:
            raise Fail('no field error')
    x.ob('ethsig/absent', ethsig, NONE)
    x.ob('ethsig/empty', ethsig, C(''))

    def ids():
        st = e.state()
        t, s, rid = (Sym('T', ['str']), Sym('S', ['str']),
                     Sym('RID', ['str']))
        m = w.open_msg(w.cls(TTC), 'M', st, num=num_of(TTC), attrs={
            'compute_task_def': e.new_dict(st, [
                (C('task_id'), t), (C('subtask_id'), s)]),
            'requestor_id': rid, 'requestor_public_key': rid},
            opaque=False)
        n = 0
        for o in w.call(m, 'validate_taskid', [], st=st, implicit='try'):
            n += judge(o, {'task_id': [t], 'subtask_id': [s]})
            if o.ok or not is_exc(w, o, 'FieldError'):
                continue
            # the field named is one whose check failed
            f = o.exc.attrs['field'].v
            v = {'task_id': t, 'subtask_id': s}[f]
            if not any(occurs(v, k) for k in o.st.facts):
                w.fail(o, 'the field error names %s, which was not checked'
                       % f)
        if n < 2:
            raise Fail('no field error for bad ids')
    x.ob('assignment/check', ids)

    # -------- the error itself
    def text():
        F, V, M = Sym('F', ['str']), Sym('V'), Sym('M', ['str'])
        n = 0
        for o in w.run(w.exc('FieldError'), [M], {
                'field': F, 'value': V}, implicit='all'):
            if not o.ok:
                w.fail(o, 'a field error can not be made')
            for name, want in (('field', F), ('value', V)):
                for s, got in w.attr(o.val, name, o.st):
                    if got != want:
                        w.fail(o, 'the %s becomes %s' % (name, show(got)))
            for o2 in w.call(o.val, '__str__', [], st=o.st,
                             implicit='all'):
                if not o2.ok:
                    w.fail(o2, 'a field error has no text')
                n += 1
                t = e.freeze(o2.val, o2.st)
                for v in (F, V):
                    how = shown(t, v)
                    if how == 'unknown':
                        raise Undecided('the text is %s' % show(t))
                    if how != 'yes':
                        w.fail(o2, 'the text of a field error does not '
                               'show its %s: %s' % (
                                   'field' if v == F else 'value', show(t)))
        if not n:
            raise Undecided('no text')

    def shown(t, v):
        if t == v:
            return 'yes'
        if not isinstance(t, (App, Tup)):
            return 'no'
        sub = [shown(a, v) for a in (t.args if isinstance(t, App)
                                     else t.items)]
        if isinstance(t, Tup) or t.op in ('cat', 'repr', 'str', 'fmt',
                                          'excstr', 'join'):
            for a in ('yes', 'unknown', 'no'):
                if a in sub:
                    return a
            return 'no'
        if t.op in ('slc', 'len', 'type', 'truth', 'typename', 'class'):
            return 'no'
        return 'unknown' if set(sub) & {'yes', 'unknown'} else 'no'
    x.ob('text', text)

    # -------- every place that makes one
    for fn, where, call in field_error_calls(w):
        x.ob('call/%s' % where, call_complete, w, call, where)


def field_error_calls(w):
    """(function, place, call) of every call in the library that names
    FieldError or a class derived from it"""
    e = w.e
    below = {'FieldError'}
    for mod, tree in sorted(e.modtree.items()):
        for c in ast.walk(tree):
            if isinstance(c, ast.Call):
                f = c.func
                name = f.attr if isinstance(f, ast.Attribute) else \
                    f.id if isinstance(f, ast.Name) else None
                if name in below:
                    yield None, '%s:%d' % (mod, c.lineno), c


def call_complete(w, call, where):
    got = {k.arg for k in call.keywords}
    if None in got or any(isinstance(a, ast.Starred) for a in call.args):
        raise Undecided('what is handed over is not visible')
    lack = {'field', 'value'} - got
    if lack:
        raise Fail('a field error is made without %s' % ' and '.join(
            sorted(lack)), where)


# ------------------------------------------------------------------ C45

SECONDS = {
    'constants': {
        'MMTT': 5, 'MTD': 10, 'MAT': 135, 'MAX_CONCENT_PING_INTERVAL': 60,
        'CMT': 240, 'FAT': 960, 'AVCT': 1680, 'PDT': 43200,
        'DOWNLOAD_LEADIN_TIME': 60},
    'settings': {
        'MSG_TTL': 600, 'FUTURE_TIME_TOLERANCE': 300,
        'PAYMENT_TIMESTAMP_TOLERANCE': 900},
}
NUMBERS = {
    'constants': {'DEFAULT_UPLOAD_RATE': 48},
    'settings': {'MIN_TIMESTAMP': 1262304000,
                 'MAX_TIMESTAMP': 32819212800},
}
SIZE = Sym('SIZE', ['int'])
RATE = Sym('RATE', ['int'])
ROUNDS = {'floor', 'round', 'trunc', 'int', 'floordiv', 'ceil', 'mod',
          'div', 'rshift', 'shr', 'tdseconds', 'tzoffset'}


def scaled(t):
    """(vector with leading coefficient 1, factor) of a number term"""
    ln = lin_of(t)
    if ln is None or ln[2] != 0 or not ln[1]:
        return None
    vec, scale = vec_of(ln[1])
    return vec, scale


def quotient(n, d):
    """(numerator, denominator, factor) of n / d"""
    a = scaled(n)
    if isinstance(d, C):
        return None if a is None or not d.v else (
            a[0], (), a[1] / Fraction(d.v))
    b = scaled(d)
    if a is None or b is None:
        return None
    return a[0], b[0], a[1] / b[1]


def rounded_up(t):
    """(quotient, sign) if t is a quotient rounded up (or, with sign -1,
    the opposite of one), else None"""
    if not isinstance(t, App):
        return None
    if t.op == 'ceil':
        x = t.args[0]
        if isinstance(x, App) and x.op == 'div':
            q = quotient(x.args[0], x.args[1])
        else:
            q = quotient(x, C(1))
        return q and (q, 1)
    if t.op == 'floordiv':
        n, d = t.args[:2]
        ln = lin_of(n)
        if ln is None:
            return None
        # (a + d - 1) // d
        rest = lin_add(ln, lin_of(d), -1)
        if rest is not None:
            q = quotient(mk_lin(rest[0], rest[1], rest[2] + 1), d)
            if q is not None and q[2] > 0:
                return q, 1
        # -(-a // d)
        q = quotient(mk_lin(ln[0], {k: -c for k, c in ln[1].items()},
                            -ln[2]), d)
        if q is not None and q[2] > 0:
            return q, -1
    return None


def duration(w, t, st):
    """{term or rounded up quotient: coefficient}, constant of a duration
    or number; None if it is no linear combination"""
    ln = lin_of(t)
    if ln is None:
        return None
    out, const = {}, ln[2]

    def add(k, c):
        nonlocal const
        r = rounded_up(k)
        if r is not None:
            k, c = ('up',) + r[0], c * r[1]
        elif isinstance(k, App) and k.op == 'floordiv':
            part = whole_part(k)
            if part is not None:
                for k2, c2 in part[0].items():
                    add(k2, c * c2)
                const += c * part[1]
                return
            q = quotient(*k.args[:2])
            rest = q and remains(w, App('mod', *k.args[:2]), st)
            if rest is not None and q:
                k = ('up',) + q
                if rest:
                    const -= c
        out[k] = out.get(k, 0) + c
    for k, c in ln[1].items():
        add(k, c)
    return {k: c for k, c in out.items() if c}, const


def whole_part(k):
    """A duration of whole seconds divided by a number that leaves whole
    microseconds."""
    ln = lin_of(k.args[0])
    d = lin_of(k.args[1])
    if ln is None or ln[0] != 'td' or d is None or d[0] != 'num' or d[1]:
        return None
    if any(Fraction(c).denominator != 1 for c in
           list(ln[1].values()) + [ln[2]]):
        return None
    if Fraction(d[2]).denominator != 1 or not d[2] or 10 ** 6 % d[2]:
        return None
    return {a: Fraction(c) / Fraction(d[2]) for a, c in ln[1].items()}, \
        Fraction(ln[2]) / Fraction(d[2])


def remains(w, rest, st):
    """Is the remainder known to be positive (True) or zero (False)?"""
    if w.proves(st, '==', rest, C(0)):
        return False
    if w.refutes(st, '==', rest, C(0)):
        return True
    if w.refutes(st, '>', rest, C(0)):
        return False
    return None


@prop('C45')
def c45(x, w):
    x.rule('The constants are folded from their definitions and compared '
           'with the published numbers. The helpers are run on symbolic '
           'sizes, rates, prices and times: the term of every returning '
           'path must be the published linear combination of the inputs '
           'and the rounded up quotient.')
    x.assume('sizes are below 2**53, where dividing as floats and rounding '
             'up is exact')
    e = w.e

    def seconds(v, st):
        ln = lin_of(v)
        if ln is None or ln[1]:
            raise Undecided('its value is %s' % show(v))
        if ln[0] == 'num':
            raise Fail('its value is the number %s' % show(v))
        return ln[2]

    def constant(mod, name, want):
        got = seconds(e.mod_attr(mod, name), e.state())
        if got != want:
            raise Fail('%s.%s is %s seconds instead of %s' % (
                mod, name, got, want), mod)

    def number(mod, name, want):
        got = e.mod_attr(mod, name)
        if not isinstance(got, C):
            raise Undecided('%s is %s' % (name, show(got)))
        if got.v != want:
            raise Fail('%s.%s is %s instead of %s' % (mod, name, got.v,
                                                      want), mod)
    for mod, t in SECONDS.items():
        for name, want in t.items():
            x.ob('%s.%s' % (mod, name), constant, mod, name, want)
    for mod, t in NUMBERS.items():
        for name, want in t.items():
            x.ob('%s.%s' % (mod, name), number, mod, name, want)

    def delays(q, want):
        st = e.state()
        tab = e.mod_attr('constants', 'MSG_DELAYS')
        outs = w.call(tab, '__getitem__', [w.cls(q)], st=st,
                      implicit='all')
        for o in outs:
            if not o.ok:
                w.fail(o, '%s has no delay' % q)
            if seconds(o.val, o.st) != want:
                w.fail(o, 'the delay of %s is %s' % (q, show(o.val)))
        if not outs:
            raise Undecided('no delay')
    for num, q, cls in w.kinds():
        x.ob('delay/' + q, delays, q, 145 if q ==
             'message.concents:ForceReportComputedTask' else 0)

    UP48 = ('up',) + quotient(SIZE, C(48 * 1024))
    UP = ('up',) + quotient(SIZE, mk_lin('num', {RATE: Fraction(1024)},
                                         Fraction(0)))

    def formula(o, got, want, what):
        """want: ({term: coefficient}, constant)"""
        d = duration(w, got, o.st)
        if d is None:
            raise Undecided('%s is %s' % (what, show(got)))
        if d == want:
            return
        strange = [k for k in d[0] if k not in want[0]]
        why = '%s is %s' % (what, show(got))
        for k in strange:
            if isinstance(k, tuple) or isinstance(k, Sym):
                continue
            if not all(t.op in ROUNDS or t.op == 'lin' for t in subterms(k)
                       if isinstance(t, App)):
                raise Undecided(why)
        w.fail(o, why)

    def times(run, want, what, kind='td'):
        n = 0
        for o in run():
            if not o.ok:
                if any(isinstance(k, App) and k.op == 'raises' and
                       v is True for k, v in o.st.facts.items()):
                    continue
                w.fail(o, '%s can not be computed' % what)
            n += 1
            ln = lin_of(o.val)
            if ln is not None and ln[0] != kind:
                w.fail(o, '%s is %s' % (what, show(o.val)))
            formula(o, o.val, want, what)
        if not n:
            raise Fail('%s is never computed' % what)
        return '%d paths' % n

    def start(least_rate=1):
        st = e.state()
        st.iv[((SIZE, 1),)] = (0, False, 2 ** 53, False)
        st.iv[((RATE, 1),)] = (least_rate, False, None, False)
        return st
    H = 'helpers:'
    x.ob('download/default', times, lambda: w.run(
        H + 'maximum_download_time', [SIZE], st=start(), implicit='all'),
        ({UP48: 1}, 60), 'the download time')
    x.ob('download/rate', times, lambda: w.run(
        H + 'maximum_download_time', [SIZE, RATE], st=start(),
        implicit='all'), ({UP: 1}, 60), 'the download time')
    x.ob('download/keywords', times, lambda: w.run(
        H + 'maximum_download_time', [], {'size': SIZE, 'rate': RATE},
        st=start(), implicit='all'), ({UP: 1}, 60), 'the download time')
    for size, secs in ((0, 0), (1, 1), (49151, 1), (49152, 1), (49153, 2),
                       (49152 * 10 ** 6, 10 ** 6),
                       (49152 * 10 ** 6 + 1, 10 ** 6 + 1)):
        x.ob('download/%d' % size, times, lambda size=size: w.run(
            H + 'maximum_download_time', [C(size)], st=start(),
            implicit='all'), ({}, 60 + secs), 'the download time')

    def verification():
        st = start()
        ts, dl = Sym('TTCTIME', ['int']), Sym('DEADLINE', ['int'])
        ttc = w.open_msg(w.cls(TTC), 'T', st, attrs={
            'header': NT(w.Header, C(num_of(TTC)), ts, FALSE),
            'compute_task_def': e.new_dict(st, [(C('deadline'), dl)])},
            opaque=False)
        rct = w.open_msg(w.cls(RCT), 'R', st, attrs={
            'size': SIZE, 'task_to_compute': ttc}, opaque=False)
        return times(lambda: w.run(
            H + 'subtask_verification_time', [rct], st=st,
            implicit='all'), (
                {UP48: 3, dl: Fraction(1, 2), ts: Fraction(-1, 2)},
                4 * 240 + 3 * 60), 'the verification time')
    x.ob('verification', verification)

    P = Sym('PRICE', ['int'])

    def deposits(fn, factors):
        n = 0
        for o in w.run(H + fn, [P], st=e.state(), implicit='all'):
            if not o.ok:
                w.fail(o, 'there is no deposit')
            n += 1
            if not isinstance(o.val, (Tup, NT)) or len(o.val.items) != 2:
                w.fail(o, 'the deposits are %s' % show(o.frozen()))
            for got, k in zip(o.val.items, factors):
                formula(o, got, ({P: k}, 0), 'the deposit')
        if not n:
            raise Undecided('no outcome')
    x.ob('requestor-deposit', deposits, 'requestor_deposit_amount', (2, 4))
    x.ob('provider-deposit', deposits, 'provider_deposit_amount', (1, 4))

"""Rules about the content of messages: which values a field may have and
what becomes of them on the way."""
from . import prop
from .common import *  # noqa: F401,F403
from .common import (
    App, Bound, C, Cls, EnumM, FALSE, Fail, Fn, Many, NONE, NT, R, Ref, Sym,
    Tup, Undecided, is_exc, member, oks, one_field, ops, show)
from .frame import (
    loaded_frame, nested_objects, nested_wire, slot_pairs, typed)
from ..dom import Ext
from ..world import PAYLOAD, PRIV, PUB


# ------------------------------------------------------------------ C17

def library_errors_only(w, outs):
    bad = {}
    for o in outs:
        if not o.ok and not w.is_lib_error(o):
            bad.setdefault((o.exc_name, o.where), o)
    for o in bad.values():
        w.fail(o, 'loading raises %s, which is no error of the library'
               % o.exc_name)
    return '%d paths' % len(outs)


@prop('C17')
def c17(x, w):
    x.rule('For every kind every abstract path of loading a frame with '
           'unknown flag, signature, version and payload, with every '
           'operation that may raise for some operand types raising where '
           'the types of its operands allow it, ends in a message or in an '
           'exception whose class derives from the library error.')
    x.assume('the keys handed over by the caller have the documented types')
    x.assume('the version of the library itself is well formed')

    def frame():
        st = w.e.state()

        def stop(f, args, kws, st, n, fr):
            return [(st, App('loaded', w.e.freeze(f, st)))]
        w.stops['deserialize_with_header'] = stop
        old = w.e.BIG, w.e.JOIN_AT
        w.e.BIG, w.e.JOIN_AT = 300, 5000
        try:
            outs = w.run('shortcuts:load', [Sym('DATA', ['bytes']), PRIV,
                                            PUB], st=st, implicit='all')
        finally:
            w.stops.pop('deserialize_with_header')
            w.e.BIG, w.e.JOIN_AT = old
        return library_errors_only(w, outs)
    x.ob('any-frame', frame)

    def kind(num, q):
        return library_errors_only(w, w.load(num, implicit='all'))
    for num, q, cls in w.kinds():
        x.ob('load/' + q, kind, num, q)


# ------------------------------------------------------------------ C46

WIREVAL = App('item', App('cborload', PAYLOAD), C('W'))
PLAIN = Sym('DATA', ['bool', 'int', 'float', 'str', 'bytes', 'dict'])


def number(kind):
    return next(n for n, k in R.KINDS.items() if k == kind)


def nested_slots(w):
    """Every nested message field: (num, q, slot, kind, none, lst)"""
    for num, q, cls in w.kinds():
        for slot, (kind, none, lst) in sorted(
                R.NESTED_FIELDS.get(q, {}).items()):
            yield num, q, slot, kind, none, lst


def all_know(st, seq, atom):
    """Is this atom known to hold for every element of seq?"""
    for k in st.facts:
        if isinstance(k, App) and k.op == 'forall' and k.args[0] == seq:
            for alt in k.args[1]:
                if not any(a == atom and v is True for a, v in alt):
                    return False
            return True
    return False


def is_nested(w, o, st, v, kind, src, entry=None):
    """Is v an object of kind made of the entry at `src`?"""
    e = w.e
    if not isinstance(v, Ref) or e.o(v, st).kind != 'inst':
        w.fail(o, 'a nested message becomes %s' % show(e.freeze(v, st)))
    ob = e.o(v, st)
    if ob.cls != w.cls(kind):
        w.fail(o, 'a nested message becomes an object of %s' % (
            w.name(ob.cls) if isinstance(ob.cls, Cls) else ob.cls))
    part = [App('item', src, C(i)) for i in range(3)] \
        if entry is None else entry
    h = ob.attrs.get('header')
    want = [App('item', part[0], C(i)) for i in range(3)] \
        if entry is None else entry[0]
    num = C(number(kind))

    def same_type(t):
        if t == num or w.proves(st, '==', t, num):
            return True
        atom = App('eq', *sorted([t, num], key=show))
        return isinstance(t, App) and any(
            all_know(st, s, atom) for s in {
                x.args[0] for x in ops(t, 'elem')})
    if not isinstance(h, NT) or len(h.items) != 3 or \
            list(h.items[1:]) != want[1:] or not (
                h.items[0] == want[0] or h.items[0] == num):
        w.fail(o, 'the header of a nested message is %s' % show(h))
    if not same_type(h.items[0]):
        w.fail(o, 'a nested message may have the header of another kind')
    for name, p in (('sig', part[1]), ('\0slots', part[2])):
        got = e.freeze(ob.attrs.get(name, NONE), st)
        if got != e.freeze(p, st):
            w.fail(o, 'the %s of a nested message: %s instead of %s' % (
                name.strip('\0'), show(got), show(p)))


@prop('C46')
def c46(x, w):
    x.rule('For every nested field every abstract path of decoding an '
           'unknown received value ends in a field error, or in an object '
           'of the declared kind (a list of them where declared) whose '
           'header, signature and content are exactly the received parts '
           'and whose type number is that of the kind, or in nothing where '
           'allowed; well formed values are accepted. When dumping, plain '
           'data, messages of other kinds and disallowed absence always '
           'raise a field error.')

    def any_value(num, q, slot, kind, none, lst):
        outs = one_field(w, num, slot, WIREVAL, implicit='all')
        entry = App('item', WIREVAL, C(1))
        for o in outs:
            if not o.ok:
                if not is_exc(w, o, 'FieldError'):
                    w.fail(o, 'a received value of %s is refused with %s'
                           % (slot, o.exc_name))
                if o.exc.attrs.get('field') != C(slot) and \
                        not ops(w.e.freeze(o.exc.attrs.get('args', NONE),
                                           o.st), 'exc'):
                    w.fail(o, 'the field error does not name %s' % slot)
                continue
            for st, v in w.attr(o.val, slot, o.st):
                if v == NONE:
                    if not none:
                        w.fail(o, 'nothing is accepted for %s' % slot)
                    continue
                if isinstance(v, Ref) and w.e.o(v, st).kind == 'list':
                    if not lst:
                        w.fail(o, 'a list is accepted for %s' % slot)
                    for item in w.e.o(v, st).data:
                        if isinstance(item, Many):
                            if item.val == NONE and none:
                                continue
                            if item.seq != entry:
                                w.fail(o, 'the list is made from %s'
                                       % show(item.seq))
                            is_nested(w, o, st, item.val, kind,
                                      App('elem', item.seq))
                        else:
                            raise Undecided('list with single elements')
                    continue
                if lst:
                    w.fail(o, 'no list is accepted for %s' % slot)
                is_nested(w, o, st, v, kind, entry)
        return '%d paths' % len(outs)

    def well_formed(num, q, slot, kind, none, lst):
        (src, st, hdr, sig), = nested_wire(w, num, q, slot, kind, lst)
        n = 0
        for o in w.build(num, src, st=st):
            if not o.ok:
                if not any(isinstance(k, App) and k.op == 'nestedok'
                           and v is False for k, v in o.st.facts.items()):
                    w.fail(o, 'a well formed %s is refused' % slot)
                continue
            for st2, v in w.attr(o.val, slot, o.st):
                for m in nested_objects(w, v, st2, lst):
                    n += 1
                    is_nested(w, o, st2, m, kind, None,
                              [hdr, sig, Sym('NSL', ['list'])])
        if not n:
            raise Fail('a well formed %s is never accepted' % slot)
        if none:
            for o in oks(one_field(w, num, slot, Tup(FALSE, NONE))):
                if w.val(o.val, slot, o.st) != NONE:
                    w.fail(o, 'absence becomes %s' % show(
                        w.val(o.val, slot, o.st)))

    def dump(num, q, slot, kind, none, lst):
        e = w.e

        def run(make, ok, what):
            st = e.state()
            a = typed(w, q, st, slot)
            a[slot] = make(st)
            m = w.open_msg(w.cls(q), 'M', st, num=num, attrs=a,
                           opaque=False)
            good = 0
            for o in w.call(m, 'slots', [], st=st, implicit='all'):
                if o.ok and not ok:
                    w.fail(o, '%s is written into %s' % (what, slot))
                if not o.ok and ok:
                    w.fail(o, '%s cannot be written into %s' % (what, slot))
                if not o.ok and not is_exc(w, o, 'FieldError'):
                    w.fail(o, '%s in %s is refused with %s' % (
                        what, slot, o.exc_name))
                if not o.ok and o.exc.attrs.get('field') != C(slot):
                    w.fail(o, 'the field error does not name %s' % slot)
                good += o.ok
            return good
        run(lambda st: NONE, none, 'nothing')
        run(lambda st: PLAIN, False, 'plain data')
        run(lambda st: e.new_list(st, [PLAIN]), False, 'a list of data')
        kinds = [k for n, k, _ in w.kinds() if k != kind]
        i = kinds.index('message.tasks:WantToComputeTask') if \
            kind != 'message.tasks:WantToComputeTask' else 0
        few = kinds if x.tier == 'thorough' else [
            kinds[i], kinds[(num + 7) % len(kinds)], q]
        for k in few:
            if k == kind:
                continue
            run(lambda st: w.open_msg(w.cls(k), 'N', st), False, k)
            run(lambda st: e.new_list(st, [w.open_msg(
                w.cls(k), 'N', st)]), False, 'a list of ' + k)
        if lst:
            run(lambda st: e.new_list(st, [
                w.open_msg(w.cls(kind), 'N%d' % i, st)
                for i in range(2)]), True, 'a list of ' + kind)
            run(lambda st: e.new_list(st, [
                w.open_msg(w.cls(kind), 'N', st), w.open_msg(
                    w.cls(few[0]), 'N2', st)]), False, 'a mixed list')
        else:
            run(lambda st: w.open_msg(w.cls(kind), 'N', st), True, kind)
    for args in nested_slots(w):
        num, q, slot = args[:3]
        x.ob('load/%s.%s' % (q, slot), any_value, *args)
        x.ob('well-formed/%s.%s' % (q, slot), well_formed, *args)
        x.ob('dump/%s.%s' % (q, slot), dump, *args)


# ------------------------------------------------------------------ C06

NODE = 'datastructures.p2p:Node'
HEADER = 'datastructures.tasks:TaskHeader'
STATS = 'datastructures.stats:ProviderStats'
PEER = 'datastructures.p2p:Peer'
FILEINFO = 'message.concents:FileTransferToken.FileInfo'
CATEGORY = FILEINFO + '.Category'
CTD = 'message.tasks:ComputeTaskDef'
TTC = 'message.tasks:TaskToCompute'
W2CT = 'message.tasks:WantToComputeTask'
FTT = 'message.concents:FileTransferToken'
LISTS = {('message.p2p:ResourcePeers', 'resource_peers'),
         ('message.p2p:Gossip', 'gossip')}
ANY = ['bool', 'int', 'float', 'str', 'bytes', 'list', 'dict']


def built(w, cls, args, st, kws=None):
    """(value, state) of an object made from good parts"""
    outs = [o for o in w.run(w.cls(cls), args, kws, st=st) if o.ok]
    if len(outs) != 1:
        raise Undecided('%d ways to make a %s' % (len(outs), cls))
    return outs[0].val, outs[0].st


def container(w, cls, name, st):
    r = w.open_msg(w.cls(cls), name, st)
    # every container has fields, so its plain form is never empty
    st.iv[((App('len', App('plain', w.e.freeze(r, st))), 1),)] = (
        1, False, None, False)
    return r


def admissible(w, q, f):
    """Values a sender may put into a field:
    [(label, maker(state) -> (value, state), kind of the value)]"""
    e = w.e
    out = []

    def add(label, make, what='same'):
        def run(st):
            r = make(st)
            return r if isinstance(r, tuple) else (r, st)
        out.append((label, run, what))
    key = (q, f)
    if f in R.NESTED_FIELDS.get(q, {}):
        kind, none, lst = R.NESTED_FIELDS[q][f]

        def msg(st, name):
            return w.open_msg(w.cls(kind), name, st, num=number(kind))
        if lst:
            add('list-of-1', lambda st: e.new_list(st, [msg(st, 'N')]),
                'nested')
            add('list-of-2', lambda st: e.new_list(
                st, [msg(st, 'N'), msg(st, 'N2')]), 'nested')
        else:
            add('message', lambda st: msg(st, 'N'), 'nested')
        if none:
            add('nothing', lambda st: NONE)
        return out
    if f in R.ENUM_FIELDS.get(q, {}):
        enumq = R.ENUM_FIELDS[q][f]
        for name in sorted(R.ENUMS[enumq]):
            add(name, lambda st, name=name: w_member(w, enumq, name))
        if q != 'message.tasks:TaskFailure':
            add('nothing', lambda st: NONE)
        return out
    if f in R.OBJECT_FIELDS.get(q, ()):
        if f == 'peers':
            def peer(st, i):
                st.facts[App('raises', e.exc_class('ValueError'), App(
                    'ip', Sym('A%d' % i, ['str'])))] = False
                p = Sym('P%d' % i, ['int'])
                st.iv[((p, 1),)] = (1, False, 65535, False)
                return built(w, PEER, [e.new_dict(st, [
                    (C('address'), Sym('A%d' % i, ['str'])),
                    (C('port'), p),
                    (C('node'), container(w, NODE, 'N%d' % i, st))])], st)

            def peers(st, n):
                got = []
                for i in range(n):
                    p, st = peer(st, i)
                    got.append(p)
                return e.new_list(st, got), st
            for n in (0, 1, 2):
                add('peers-%d' % n, lambda st, n=n: peers(st, n), 'object')
            return out
        if f == 'tasks':
            for n in (0, 1, 2):
                add('tasks-%d' % n, lambda st, n=n: e.new_list(st, [
                    container(w, HEADER, 'T%d' % i, st)
                    for i in range(n)]), 'object')
            return out
        cls = HEADER if f == 'task_header' else STATS if f == 'stats' \
            else NODE
        add('object', lambda st: container(w, cls, 'OBJ', st), 'object')
        add('nothing', lambda st: NONE)
        return out
    if key == (FTT, 'files'):
        def files(st, names):
            got = []
            for i, name in enumerate(names):
                r, st = built(w, FILEINFO, [e.new_dict(st, [
                    (C('path'), Sym('PATH%d' % i, ['str'])),
                    (C('checksum'), Sym('SUM%d' % i, ['str'])),
                    (C('size'), Sym('SIZE%d' % i, ['int'])),
                    (C('category'), w_member(w, CATEGORY, name))])], st)
                got.append(r)
            return e.new_list(st, got), st
        names = sorted(R.ENUMS[CATEGORY])
        for ns in [[]] + [[n] for n in names] + [
                [a, b] for a in names for b in names]:
            add('files-' + '-'.join(ns), lambda st, ns=ns: files(st, ns),
                'object')
        return out
    if key == (TTC, 'compute_task_def'):
        def ctd(st):
            data = [(C(k), Sym('CTD.' + k, ty)) for k, ty in (
                ('task_id', ['str']), ('subtask_id', ['str']),
                ('deadline', ['int']), ('extra_data', ['dict']),
                ('performance', ['int']), ('docker_images', ['list']),
                ('resources', ['list']))]
            for k in ('task_id', 'subtask_id'):
                st.iv[((App('len', Sym('CTD.' + k, ['str'])), 1),)] = (
                    0, False, 128, False)
            return built(w, CTD, [e.new_dict(st, data)], st)
        add('definition', ctd, 'object')
        return out
    v = Sym('V', ANY)
    if key in ((TTC, 'price'), (TTC, 'size')):
        v = Sym('V', ['int'])
    elif key == (W2CT, 'cpu_usage') or key == (W2CT, 'num_subtasks'):
        v = Sym('V', ['int'])
        low = 0 if f == 'cpu_usage' else 1

        def make(st):
            st.iv[((v, 1),)] = (low, False, None, False)
            return v
        add('whole-number', make)
        if f == 'cpu_usage':
            add('nothing', lambda st: NONE)
            add('zero', lambda st: C(0))
        return out
    elif f == 'concent_enabled' and q in R.OWN_VALUES:
        v = Sym('V', ['bool'])
    elif key in LISTS:
        v = Sym('V', ['list'])
        add('empty', lambda st: e.new_list(st, []))
    add('value', lambda st: v)
    if key not in LISTS and f != 'concent_enabled' and \
            key not in ((TTC, 'price'), (TTC, 'size')):
        add('nothing', lambda st: NONE)
    return out


def w_member(w, enumq, name):
    m = member(w, enumq, name)
    if m is None:
        raise Fail('%s has no member %s' % (enumq, name))
    return m


def encodable(w, o, v, f):
    """Can the encoder write this (frozen) value?"""
    if isinstance(v, (Tup, NT)):
        return [encodable(w, o, i, f) for i in v.items]
    if isinstance(v, EnumM):
        if not w.e.enum_is_str(v.k[0]):
            w.fail(o, '%s is written as %s' % (f, show(v)))
        return None
    if isinstance(v, App) and v.op in ('list', 'dict'):
        return [encodable(w, o, i, f) for i in v.args]
    if isinstance(v, App) and v.op == 'obj' or \
            isinstance(v, (Fn, Bound, Cls)):
        w.fail(o, '%s is written as the object %s' % (f, show(v)))
    return None


def decoded(w, v, st):
    """What decoding gives back for the encoded frozen value v"""
    e = w.e
    if isinstance(v, EnumM):
        return v.value
    if isinstance(v, (Tup, NT)):
        return e.new_list(st, [decoded(w, i, st) for i in v.items])
    if isinstance(v, App) and v.op == 'list':
        return e.new_list(st, [decoded(w, i, st) for i in v.args])
    if isinstance(v, App) and v.op == 'dict':
        if not all(isinstance(i, Tup) for i in v.args):
            raise Undecided('a mapping of unknown size is encoded')
        return e.new_dict(st, [(i.items[0], decoded(w, i.items[1], st))
                               for i in v.args])
    if isinstance(v, App) and v.op == 'inst' and all(
            isinstance(i, Tup) and len(i.items) == 2 for i in v.args[2:]) \
            and Ext('builtins.dict') in w.e.mro(v.args[0]):
        return e.new_dict(st, [(i.items[0], decoded(w, i.items[1], st))
                               for i in v.args[2:]])
    return v


def refused_nested(st):
    """Was a nested part refused for its own reasons?"""
    return any(isinstance(k, App) and k.op in ('nestedok', 'madeok') and
               v is False for k, v in st.facts.items())


def equal_objects(w, o, got, gst, sent, sst, f):
    """Compare a loaded value with the one sent, object by object"""
    e = w.e
    if isinstance(sent, Ref):
        so = e.o(sent, sst)
        if not isinstance(got, Ref):
            w.fail(o, '%s: %s comes back as %s' % (f, show(e.freeze(
                sent, sst)), show(e.freeze(got, gst))))
        go = e.o(got, gst)
        if so.kind != go.kind or (so.kind == 'inst' and so.cls != go.cls):
            w.fail(o, '%s: %s comes back as %s' % (f, show(e.freeze(
                sent, sst)), show(e.freeze(got, gst))))
        if so.kind == 'list':
            if len(so.data) != len(go.data):
                w.fail(o, '%s: a list of %d comes back with %d' % (
                    f, len(so.data), len(go.data)))
            for a, b in zip(so.data, go.data):
                equal_objects(w, o, b, gst, a, sst, f)
            return
        if e.is_dictlike(so) or so.kind == 'dict':
            a = dict(p for p in so.data if isinstance(p, tuple))
            b = dict(p for p in go.data if isinstance(p, tuple))
            if set(a) != set(b) or len(so.data) != len(a) or \
                    len(go.data) != len(b):
                w.fail(o, '%s: the entries %s come back as %s' % (
                    f, [show(k) for k in a], [show(k) for k in b]))
            for k in a:
                equal_objects(w, o, b[k], gst, a[k], sst,
                              '%s[%s]' % (f, show(k)))
            return
        # a container: made again of its plain form
        if '\0made' in go.attrs:
            want = App('plain', e.freeze(sent, sst))
            if go.attrs['\0made'] != want:
                w.fail(o, '%s is made again from %s' % (
                    f, show(go.attrs['\0made'])))
            return
        if '\0slots' in go.attrs:
            for n, a, b in (
                    ('header', w.val(sent, 'header', sst),
                     go.attrs['header']),
                    ('signature', w.val(sent, 'sig', sst),
                     e.freeze(go.attrs['sig'], gst)),
                    ('content', App('slots', e.freeze(sent, sst)),
                     e.freeze(go.attrs['\0slots'], gst))):
                if a != b and not (isinstance(a, NT) and isinstance(b, NT)
                                   and a.items == b.items):
                    w.fail(o, '%s: the %s of a nested message %s comes '
                              'back as %s' % (f, n, show(a), show(b)))
            return
        raise Undecided('how %s compares' % show(e.freeze(got, gst)))
    g, s = e.freeze(got, gst), e.freeze(sent, sst)
    if isinstance(s, EnumM) or isinstance(g, EnumM):
        if g != s:
            w.fail(o, '%s: %s comes back as %s' % (f, show(s), show(g)))
        return
    if type(g) is type(s) is C and (
            g.v != s.v or type(g.v) is not type(s.v)) or \
            g != s and not w.proves(gst, '==', g, s):
        w.fail(o, '%s: %s comes back as %s' % (f, show(s), show(g)))


@prop('C06')
def c06(x, w):
    x.rule('For every field of every kind a symbolic value of each sort a '
           'sender may put there is written by the message with that field '
           'value, encoded, decoded and loaded on every abstract path; the '
           'field of the loaded message must be the same term (the same '
           'enum member, an object of the same class made of the same '
           'parts, for nested messages with the same header, signature '
           'and content).')
    x.assume('decoding an encoded value gives the value back (tuples as '
             'lists)')
    x.assume('containers rebuild from their plain form as C35 decides')

    def field(num, q, f, make, what):
        e = w.e
        st = e.state()
        a = typed(w, q, st, f)
        sent, st = make(st)
        a[f] = sent
        m = w.open_msg(w.cls(q), 'M', st, num=num, attrs=a, opaque=False)
        n = 0
        for o in w.call(m, 'slots', [], st=st):
            if not o.ok:
                w.fail(o, 'field %s cannot be written' % f)
            pairs = dict(slot_pairs(w, o))
            if f not in pairs:
                w.fail(o, 'field %s is not written' % f)
            wire = pairs[f]
            encodable(w, o, wire, f)
            s = o.st.fork()
            val = decoded(w, wire, s)
            for o2 in one_field(w, num, f, val, st=s):
                if not o2.ok:
                    if not refused_nested(o2.st):
                        w.fail(o2, 'an admissible value of %s is refused'
                               % f)
                    continue
                if refused_nested(o2.st):
                    continue
                for s3, v in w.attr(o2.val, f, o2.st):
                    n += 1
                    if isinstance(v, Ref) and isinstance(sent, Sym) and \
                            e.freeze(v, s3) == App('list') and \
                            w.truthy(s3, sent) == {False}:
                        continue    # an empty list comes back as one
                    equal_objects(w, o2, v, s3, sent, st, f)
        if not n:
            raise Fail('field %s is never loaded' % f)
        return '%d paths' % n
    for num, q, cls in w.kinds():
        for f in R.FIELDS[q]:
            for label, make, what in admissible(w, q, f):
                x.ob('%s.%s/%s' % (q, f, label), field, num, q, f, make,
                     what)
    for num, q, cls in w.kinds():
        x.ob('frame/' + q, lambda num, q: '%d paths' % len(
            loaded_frame(w, num, q)), num, q)


# ------------------------------------------------------------------ C49

NOT_WHOLE = ['bool', 'float', 'str', 'bytes', 'list', 'dict']
WHOLE = {
    # (kind, field): (least value, may be nothing, value if absent)
    (W2CT, 'num_subtasks'): (1, False, C(1)),
    (W2CT, 'cpu_usage'): (0, True, NONE),
    (TTC, 'price'): (None, False, NONE),
    (TTC, 'size'): (None, False, NONE),
}
EMPTY = [('message.p2p:Peers', 'peers'), ('message.p2p:Tasks', 'tasks')] + \
    sorted(LISTS)
FAILURE = 'message.tasks:TaskFailure'


def received(ty):
    """A received value of one of these types"""
    return Sym('V', list(ty))


def is_type(w, st, v, ty):
    t = w.e.types_of(v, st)
    return t is not None and t <= set(ty)


@prop('C49')
def c49(x, w):
    x.rule('Each of these fields is loaded from an unknown value of every '
           'type, split by the sign of the number: a value in the '
           'documented set is accepted on every abstract path and kept, '
           'any other is refused on every path with a field error naming '
           'the field; without the field every path gives the documented '
           'default.')

    def load(q, f, v, bound=None, absent=False):
        st = w.e.state()
        if bound:
            st.iv[((v, 1),)] = bound
        num = number(q)
        if absent:
            return w.build(num, w.e.new_list(st, []), st=st,
                           implicit='all')
        return one_field(w, num, f, v, st=st, implicit='all')

    def good(q, f, v, bound=None, want=None):
        for o in load(q, f, v, bound):
            if not o.ok:
                w.fail(o, 'an allowed %s is refused' % f)
            for st, got in w.attr(o.val, f, o.st):
                if got != (v if want is None else want) and \
                        not w.proves(st, '==', got, v):
                    w.fail(o, '%s becomes %s' % (f, show(
                        w.e.freeze(got, st))))

    def bad(q, f, v, bound=None, or_like_absent=None):
        for o in load(q, f, v, bound):
            if o.ok:
                got = w.val(o.val, f, o.st)
                if or_like_absent is not None and got == or_like_absent:
                    continue
                w.fail(o, '%s outside the allowed set is accepted as %s' % (
                    f, show(w.e.freeze(got, o.st))))
            if not is_exc(w, o, 'FieldError') or \
                    o.exc.attrs.get('field') != C(f):
                w.fail(o, 'a bad %s is refused with %s' % (f, o.exc_name))

    def absent(q, f, want):
        for o in load(q, f, None, absent=True):
            if not o.ok:
                w.fail(o, 'a message without %s is refused' % f)
            got = w.e.freeze(w.val(o.val, f, o.st), o.st)
            if got != want:
                w.fail(o, '%s is %s when absent' % (f, show(got)))
    for (q, f), (low, none, default) in sorted(WHOLE.items()):
        name = '%s.%s' % (q, f)
        v = received(['int'])
        x.ob(name + '/whole', good, q, f, v,
             None if low is None else (low, False, None, False))
        if low is not None:
            x.ob(name + '/small', bad, q, f, v,
                 (None, False, low - 1, False))
            x.ob(name + '/just-small', bad, q, f, C(low - 1))
            x.ob(name + '/least', good, q, f, C(low))
        for t in NOT_WHOLE:
            x.ob('%s/%s' % (name, t), bad, q, f, received([t]))
        if none:
            x.ob(name + '/nothing', good, q, f, NONE)
        else:
            x.ob(name + '/nothing', bad, q, f, NONE, None, default)
        x.ob(name + '/absent', absent, q, f, default)

    def flag(q, t):
        f = 'concent_enabled'
        v = NONE if t == 'None' else received([t])
        for o in load(q, f, v):
            if not o.ok:
                w.fail(o, 'a Concent flag of type %s is refused' % t)
            for st, got in w.attr(o.val, f, o.st):
                if not is_type(w, st, got, ['bool']):
                    w.fail(o, 'the Concent flag is %s' % show(
                        w.e.freeze(got, st)))
                for s2, b in w.e.truth(got, st.fork()):
                    if w.truthy(s2, v) != {b}:
                        w.fail(o, 'the Concent flag is %s for %s' % (
                            show(w.e.freeze(got, st)), show(v)))
    for q in sorted(R.OWN_VALUES):
        if 'concent_enabled' in R.FIELDS[q]:
            for t in ANY + ['None']:
                x.ob('%s.concent_enabled/%s' % (q, t), flag, q, t)
            x.ob(q + '.concent_enabled/absent', absent, q,
                 'concent_enabled', FALSE)
    enumq = R.ENUM_FIELDS[FAILURE]['reason']

    def reason(v, given):
        want = w_member(w, enumq, 'ComputationError')
        for o in load(FAILURE, 'reason', v, absent=not given):
            if not o.ok:
                w.fail(o, 'a failure without reason is refused')
            if w.val(o.val, 'reason', o.st) != want:
                w.fail(o, 'the reason of a failure is %s by default'
                       % show(w.val(o.val, 'reason', o.st)))
    x.ob('TaskFailure.reason/absent', reason, None, False)
    x.ob('TaskFailure.reason/nothing', reason, NONE, True)
    for name in sorted(R.ENUMS[enumq]):
        x.ob('TaskFailure.reason/' + name, good, FAILURE, 'reason',
             C(R.ENUMS[enumq][name]), None, member(w, enumq, name))
    for q, f in EMPTY:
        x.ob('%s.%s/absent' % (q, f), absent, q, f, App('list'))


# ------------------------------------------------------------------ C50

def entry(w, st, i, category):
    """A received file entry: (its parts, the dict)"""
    parts = {k: Sym('%s%d' % (k.upper(), i), t) for k, t in (
        ('path', ['str']), ('checksum', ['str']), ('size', ['int']))}
    data = [(C(k), v) for k, v in sorted(parts.items())]
    if category is not None:
        data.append((C('category'), category))
    return parts, w.e.new_dict(st, data)


@prop('C50')
def c50(x, w):
    x.rule('The two predicates are evaluated for every operation and for '
           'none; lists of up to two received entries with unknown path, '
           'checksum and size and every category (and an unknown value '
           'other than the categories, of every type) are loaded on every '
           'abstract path and compared entry by entry; the lookup is '
           'evaluated for every category over every sequence of up to '
           'three files.')
    x.assume('loading and looking up treat longer lists alike')
    ops_q = R.ENUM_FIELDS[FTT]['operation']

    def predicate(name, v, how):
        e = w.e
        st = e.state()
        want = name in ('upload', 'download') and name
        if how == 'loaded':
            outs = one_field(w, number(FTT), 'operation', v, st=st)
        else:
            outs = w.run(w.cls(FTT), [], {'operation': v}, st=st)
        for o in outs:
            if not o.ok:
                w.fail(o, 'operation %s is refused' % name)
            for p, op in (('is_upload', 'upload'),
                          ('is_download', 'download')):
                for s, got in w.attr(o.val, p, o.st):
                    if w.truthy(s, got) != {want == op}:
                        w.fail(o, '%s is %s for operation %s' % (
                            p, show(e.freeze(got, s)), name))
    for name in sorted(R.ENUMS[ops_q]):
        x.ob('operation/%s/loaded' % name, predicate, name,
             C(R.ENUMS[ops_q][name]), 'loaded')
        m = member(w, ops_q, name)
        if m is not None:
            x.ob('operation/%s/made' % name, predicate, name, m, 'made')
    x.ob('operation/none', predicate, 'none', NONE, 'loaded')

    cats = sorted(R.ENUMS[CATEGORY])

    def files(names):
        e = w.e
        st = e.state()
        sent = [entry(w, st, i, None if n is None else C(
            R.ENUMS[CATEGORY][n])) for i, n in enumerate(names)]
        v = e.new_list(st, [d for _, d in sent])
        for o in one_field(w, number(FTT), 'files', v, st=st):
            if not o.ok:
                w.fail(o, 'a list of well formed files is refused')
            got, = [v for _, v in w.attr(o.val, 'files', o.st)]
            items = e.o(got, o.st).data if isinstance(got, Ref) else None
            if items is None or len(items) != len(sent):
                w.fail(o, 'the files become %s' % show(
                    e.freeze(got, o.st)))
            for (parts, _), n, g in zip(sent, names, items):
                check_file(o, g, parts, n or 'results')

    def check_file(o, g, parts, name):
        e = w.e
        ob = e.o(g, o.st) if isinstance(g, Ref) else None
        if ob is None or not e.is_dictlike(ob):
            w.fail(o, 'a file becomes %s' % show(e.freeze(g, o.st)))
        if ob.cls != w.cls(FILEINFO):
            w.fail(o, 'a file becomes a %s' % ob.cls)
        want = dict(parts)
        want['category'] = w_member(w, CATEGORY, name)
        data = {k.v: v for k, v in ob.data}
        for k in want:
            if data.get(k) != want[k]:
                w.fail(o, 'the %s of a file: %s instead of %s' % (
                    k, show(e.freeze(data.get(k, NONE), o.st)),
                    show(want[k])))
        if set(data) != set(want):
            w.fail(o, 'a file has the entries %s' % sorted(data))
    x.ob('files/none', files, [])
    for a in [None] + cats:
        x.ob('files/%s' % a, files, [a])
        for b in [None] + cats:
            x.ob('files/%s-%s' % (a, b), files, [a, b])

    def defaults():
        e = w.e
        st = e.state()
        v = e.new_list(st, [e.new_dict(st, [])])
        for o in one_field(w, number(FTT), 'files', v, st=st):
            if not o.ok:
                w.fail(o, 'a file without details is refused')
            got, = [v for _, v in w.attr(o.val, 'files', o.st)]
            g, = e.o(got, o.st).data
            check_file(o, g, {'path': C(''), 'checksum': C(''),
                              'size': C(0)}, 'results')
    x.ob('files/defaults', defaults)

    def wrong(v, names):
        e = w.e
        st = e.state()
        for n in cats:
            c = C(R.ENUMS[CATEGORY][n])
            st.facts[App('eq', *sorted([v, c], key=show))] = False
        src = e.new_list(st, [entry(w, st, i, C(R.ENUMS[CATEGORY][n]) if n
                                    else v)[1]
                              for i, n in enumerate(names)])
        for o in one_field(w, number(FTT), 'files', src, st=st,
                           implicit='all'):
            if o.ok:
                w.fail(o, 'a file of another category is accepted')
            if not is_exc(w, o, 'FieldError'):
                w.fail(o, 'a file of another category is refused with %s'
                       % o.exc_name)
    for t in ('bool', 'int', 'float', 'str', 'bytes', 'list', 'dict'):
        x.ob('category/' + t, wrong, received([t]), [None])
    x.ob('category/second', wrong, received(['str']), ['results', None])
    for c in ('Results', 'resource', ''):
        x.ob('category/%r' % c, wrong, C(c), [None])

    def lookup(names, asked):
        e = w.e
        st = e.state()
        made = []
        for i, n in enumerate(names):
            r, st = built(w, FILEINFO, [e.new_dict(st, [
                (C('path'), Sym('PATH%d' % i, ['str'])),
                (C('checksum'), Sym('SUM%d' % i, ['str'])),
                (C('size'), Sym('SIZE%d' % i, ['int'])),
                (C('category'), w_member(w, CATEGORY, n))])], st)
            made.append(r)
        outs = w.run(w.cls(FTT), [], {'files': e.new_list(st, made)},
                     st=st)
        want = next((r for r, n in zip(made, names) if n == asked), NONE)
        for o in oks(outs):
            for o2 in w.call(o.val, 'get_file_info',
                             [w_member(w, CATEGORY, asked)], st=o.st):
                if not o2.ok:
                    w.fail(o2, 'looking up a file raises %s' % o2.exc_name)
                if o2.val != want:
                    w.fail(o2, 'looking up %s among %s gives %s' % (
                        asked, names, show(e.freeze(o2.val, o2.st))))
    seqs = [[]]
    for _ in range(3):
        seqs = seqs + [s + [c] for s in seqs if len(s) == max(
            len(t) for t in seqs) for c in cats]
    for s in seqs:
        for c in cats:
            x.ob('lookup/%s in %s' % (c, '-'.join(s)), lookup, s, c)

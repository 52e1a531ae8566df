"""What only looks at a message leaves it as it was."""
from . import prop
from .common import *  # noqa: F401,F403
from .common import (
    App, C, NONE, NT, R, Ref, Sym, Undecided, chain, ops, show)
from ..dom import Cls, Ext, Fn
from ..world import PRIV, PUB
from . import fields, tasks

OWNSIG = App('input', 'OWNSIG', 65)


class Content:
    """What is stored in m and in everything reachable from it"""

    def __init__(self, w, m, st):
        self.w, self.st, self.m = w, st.fork(), m
        self.vals, self.at = {}, {}
        self.seen = set()
        self.walk(m, 'message')

    def walk(self, v, path):
        e, st = self.w.e, self.st
        if not isinstance(v, Ref) or v in self.seen:
            return
        self.seen.add(v)
        o = e.o(v, st)
        if o is None:
            return
        if o.kind == 'inst':
            for f, x in sorted(o.attrs.items()):
                if f.startswith('\0') or f == '__dict__':
                    continue
                if f.startswith('_') and f != '_version':
                    continue
                k = '%s.%s' % (path, f)
                self.vals[k], self.at[k] = e.freeze(x, st), (v, f)
                self.walk(x, k)
        for i, x in enumerate(o.data):
            if isinstance(x, tuple):
                self.walk(x[1], '%s[%s]' % (path, show(x[0])))
            elif isinstance(x, Ref):
                self.walk(x, '%s[%d]' % (path, i))

    def pristine(self, k, at):
        """What reading an attribute about which nothing was known gives"""
        outs = [o for o in self.w.e.read(at[0], at[1], self.st.fork())
                if o.ok]
        return [o.frozen() for o in outs]


def unchanged(w, o, before, what, but=()):
    """Everything stored before is still stored after o"""
    after = Content(w, before.m, o.st)
    for k, a in before.vals.items():
        if k in but:
            continue
        b = after.vals.get(k)
        if b is None:
            # no longer reached: then what led here has changed as well
            continue
        if a == b or w.proves(o.st, '==', a, b):
            continue
        if ops(b, 'fold') or ops(b, 'acc'):
            raise Undecided('%s: %s is now %s' % (what, k, show(b)))
        w.fail(o, '%s changes %s from %s to %s' % (what, k, show(a),
                                                   show(b)))
    for k, b in after.vals.items():
        if k in before.vals or k in but or after.at[k][0] not in before.seen:
            continue
        if ops(b, 'unset') or ops(b, 'acc'):
            # first looked up within a loop
            continue
        was = before.pristine(k, after.at[k])
        if not was:
            # an attribute of its own, not a field
            continue
        if b in was or any(w.proves(o.st, '==', a, b) for a in was):
            continue
        w.fail(o, '%s changes %s to %s' % (what, k, show(b)))
    return after


def known(w, m, st):
    """State in which every field of m and of the messages inside it has a
    name"""
    e = w.e
    o = e.o(m, st)
    kinds = {w.cls(q): R.FIELDS[q] for q in R.FIELDS}
    kinds.update({w.cls(q): list(d) for q, d in R.CONTAINERS.items()})
    if o.kind == 'inst' and o.cls in kinds:
        for f in kinds[o.cls]:
            outs = [x for x in e.read(m, f, st) if x.ok]
            if len(outs) != 1:
                raise Undecided('%s is not one value' % f)
            st, v = outs[0].st, outs[0].val
            if isinstance(v, Ref):
                st = known(w, v, st)
    return st


def filled(w, q, st, how):
    """A value for every field: text, or a list or dictionary which could
    be changed in place"""
    e = w.e
    a = {}
    for f in R.FIELDS[q]:
        if f in R.NESTED_FIELDS.get(q, {}):
            kind, none, lst = R.NESTED_FIELDS[q][f]
            n = chain(w, kind, 'M.' + f, st)
            a[f] = e.new_list(st, [n]) if lst else n
        elif f in R.OBJECT_FIELDS.get(q, ()):
            a[f] = NONE if f.endswith('node_info') else e.new_list(st, [])
        elif f in R.ENUM_FIELDS.get(q, {}):
            a[f] = NONE
        elif how == 'lists':
            a[f] = e.new_list(st, [Sym('M.%s.0' % f), Sym('M.%s.1' % f)])
        elif how == 'words':
            a[f] = C('M.' + f)
        elif how == 'none':
            a[f] = NONE
        else:
            a[f] = Sym('M.' + f)
    return a


SIZE = {'verify_owners': 2, 'validate_ownership_chain': 3}


def size(q):
    """Number of task messages in a message of a kind, itself included"""
    return 1 + sum(size(k) for s, (k, none, lst) in R.NESTED_FIELDS.get(
        q, {}).items() if not lst and k != tasks.W2CT)


@prop('C59')
def c59(x, w):
    x.rule('Every way of looking at a message is run on an open message of '
           'every kind, with texts, lists and nothing in its fields; on '
           'every path, also those that raise, header, signature and fields '
           'of the message and of the messages inside it are compared with '
           'what they were.')
    e = w.e
    # what an earlier call leaves behind is not content of the message
    x.history = x.tier == 'thorough'

    def made(q, num, how, sig=OWNSIG):
        st = e.state()
        m = w.open_msg(w.cls(q), 'M', st, num=num, opaque=False, attrs=dict(
            filled(w, q, st, how), sig=sig))
        return st, m

    WAYS = (
        ('listing the fields', lambda m, st, q, num: w.call(
            m, 'slots', [], st=st)),
        ('hashing', lambda m, st, q, num: w.call(
            m, 'get_short_hash', [], st=st)),
        ('verifying the signature', lambda m, st, q, num: w.call(
            m, 'verify_signature', [PUB], st=st)),
        ('printing', lambda m, st, q, num: w.run(
            Ext('builtins.repr'), [m], st=st)),
        ('comparing', lambda m, st, q, num: w.call(m, '__eq__', [
            w.open_msg(w.cls(q), 'B', st, num=num)], st=st)),
        ('comparing with something else', lambda m, st, q, num: w.call(
            m, '__eq__', [Sym('OTHER')], st=st)))

    def looked(q, num, make, ways=WAYS):
        n = 0
        for what, act in ways:
            st, m = make()
            before = Content(w, m, st)
            outs = act(m, st, q, num)
            if not outs:
                raise Undecided('%s has no outcome' % what)
            for o in outs:
                n += 1
                unchanged(w, o, before, what)
        return '%d paths' % n

    def special(q, num, f, make):
        """one field holds an object"""
        st = e.state()
        v, st = make(st)
        a = filled(w, q, st, 'texts')
        a.update({f: v, 'sig': OWNSIG})
        return st, w.open_msg(w.cls(q), 'M', st, num=num, opaque=False,
                              attrs=a)

    def dumped(q, num, sig):
        """dumping sets the encryption flag and a missing signature"""
        n = 0
        st, m = made(q, num, 'words', sig)
        before = Content(w, m, st)
        head = before.vals['message.header']
        but = ['message.header'] + (
            ['message.sig'] if sig == NONE else [])
        for pub in (PUB, NONE):
            for o in w.run('shortcuts:dump', [m, PRIV, pub], st=st):
                n += 1
                after = unchanged(w, o, before, 'dumping', but)
                h = after.vals.get('message.header')
                if not isinstance(h, NT) or h.items[:2] != head.items[:2]:
                    w.fail(o, 'dumping changes the header to %s' % (
                        show(h) if h is not None else None))
        if not n:
            raise Undecided('dumping has no outcome')
        return '%d paths' % n

    for num, q in sorted(R.KINDS.items()):
        for how in ('texts', 'lists', 'none'):
            x.ob('%s/%s' % (q, how), looked, q, num,
                 lambda q=q, num=num, how=how: made(q, num, how))
        for f in R.FIELDS[q]:
            for label, make, kind in fields.admissible(w, q, f):
                if kind not in ('object', 'nested'):
                    continue
                x.ob('%s.%s/%s' % (q, f, label), looked, q, num,
                     lambda q=q, num=num, f=f, make=make: special(
                         q, num, f, make), WAYS[:2])
        x.ob('%s/dump' % q, dumped, q, num, OWNSIG)
        x.ob('%s/dump unsigned' % q, dumped, q, num, NONE)

    def accessors(q, cls):
        """the properties a kind offers"""
        names = set()
        for c in e.mro(cls):
            if not isinstance(c, Cls):
                continue
            for k in public_names(w, c):
                names.add(k)
        n = 0
        for name in sorted(names):
            st = e.state()
            node = tasks.deep(w, q, 'M', st)
            before = Content(w, node.ref, st)
            for o in e.read(node.ref, name, st):
                n += 1
                unchanged(w, o, before, 'reading ' + name)
        return '%d accessors, %d paths' % (len(names), n)

    CK = tasks.CK

    def judged(q, what, args):
        n = 0
        for skip in tasks.variants(q)[:4]:
            st = e.state()
            node = tasks.deep(w, q, 'M', st, skip=skip)
            st = known(w, node.ref, st)
            before = Content(w, node.ref, st)
            for o in w.call(node.ref, what, args, st=st):
                n += 1
                unchanged(w, o, before, what)
        if not n:
            raise Undecided('%s has no outcome' % what)
        return '%d paths' % n

    NOTES = [('verify_ethsig', []), ('validate_taskid', [])] + [
        (n, [Sym('CONTRACT', ['str'])]) for n in (
            'verify_promissory_note', 'verify_concent_promissory_note',
            'verify_all_promissory_notes')]
    for what, args in NOTES:
        x.ob('%s/%s' % (tasks.TTC, what), judged, tasks.TTC, what, args)

    def inside(q):
        """the data structures in the fields"""
        n = 0
        for what, act in (
                ('to_dict', lambda c, st: w.call(c, 'to_dict', [], st=st)),
                ('printing', lambda c, st: w.run(
                    Ext('builtins.repr'), [c], st=st)),
                ('get_hash', lambda c, st: w.call(
                    c, 'get_hash', [], st=st)),
                ('verify', lambda c, st: w.call(
                    c, 'verify', [PUB], st=st)),
                ('is_super_node', lambda c, st: w.call(
                    c, 'is_super_node', [], st=st)),
                ('comparing', lambda c, st: w.call(c, '__eq__', [
                    fields.container(w, q, 'B', st)], st=st))):
            if what in ('get_hash', 'verify', 'is_super_node',
                        'comparing'):
                name = '__eq__' if what == 'comparing' else what
                r = e.cls_lookup(w.cls(q), name, e.state())
                if r is None or not isinstance(r[1], Fn):
                    continue
            st = e.state()
            c = w.open_msg(w.cls(q), 'C', st, opaque=False, attrs={
                f: part(st, f, d) for f, (d, req, dflt) in
                R.CONTAINERS[q].items()})
            for k in ('header', 'sig'):
                e.o(c, st).attrs.pop(k, None)
            before = Content(w, c, st)
            outs = act(c, st)
            if not outs:
                raise Undecided('%s has no outcome' % what)
            for o in outs:
                n += 1
                unchanged(w, o, before, what)
        return '%d paths' % n

    def part(st, f, d):
        if d[0] == 'part':
            return fields.container(w, d[1], 'C.' + f, st)
        if d[0] == 'dict' or f == 'port_statuses':
            return e.new_dict(st, [(C('k'), Sym('C.%s.k' % f))])
        if d[0] == 'any':
            return e.new_list(st, [Sym('C.%s.0' % f), Sym('C.%s.1' % f)])
        if d[0] in ('mask', 'entries', 'enum'):
            return NONE
        return Sym('C.' + f, {'bool': ['bool'], 'int': ['int'],
                              'bytes': ['bytes', 'None']}.get(
                                  d[0], ['str', 'None']))
    for q in sorted(R.CONTAINERS):
        x.ob(q, inside, q)

    base = w.cls('message.tasks:TaskMessage')
    for num, q in sorted(R.KINDS.items()):
        cls = w.cls(q)
        x.ob('%s/accessors' % q, accessors, q, cls)
        if not w.sub(cls, base):
            continue
        for what, args in (('is_valid', []),
                           ('validate_ownership', [CK]),
                           ('validate_ownership_chain', [CK]),
                           ('verify_owners', [
                               Sym('RK', ['bytes']), Sym('PK', ['bytes']),
                               CK])):
            # the walk through the nested messages is the same code for
            # every kind that does not bring its own
            most = SIZE.get(what, 99) + (x.tier == 'thorough')
            own = e.cls_lookup(cls, what, e.state()) != e.cls_lookup(
                base, what, e.state())
            if not own and size(q) > most:
                x.count('inherited, shown on smaller messages')
                continue
            x.ob('%s/%s' % (q, what), judged, q, what, args)


def public_names(w, c):
    """Names of the properties defined by class c"""
    e = w.e
    st = e.state()
    for f in e.classes[c.k[0]].node.body:
        name = getattr(f, 'name', None)
        if not name or name.startswith('_'):
            continue
        r = e.cls_lookup(c, name, st)
        if r is None or isinstance(r[1], (Fn, Cls)):
            continue
        if getattr(f, 'decorator_list', None):
            yield name

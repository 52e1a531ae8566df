"""Transfer functions of the callables the repository uses (builtins,
standard library, third-party libraries)."""
import ast
import calendar
import datetime
import hashlib
import math
import struct
import time
import uuid
from fractions import Fraction

from .dom import (
    App, Bound, C, CM, Cached, Cls, EnumM, Ext, FALSE, Fn, Many, Mod, NONE,
    NT, NUM, Native, Obj, Partial, Phi, Prop, Ref, SIZED, SM, Super,
    Sym, TRUE, Tup, UNIVERSE, Val, cat, is_now, lin_add, lin_of, lin_scale,
    mk_lin, pk_size, show)

REG = {}
NTYPES = {
    'int': {'int', 'bool'}, 'bool': {'bool'}, 'float': {'float'},
    'str': {'str'}, 'bytes': {'bytes'}, 'bytearray': {'bytearray'},
    'list': {'list'}, 'tuple': {'tuple'}, 'dict': {'dict'},
    'set': {'set'}, 'frozenset': {'set'}, 'NoneType': {'None'},
}
ABC = {
    'Mapping': {'dict'}, 'MutableMapping': {'dict'},
    'Sequence': {'str', 'bytes', 'bytearray', 'list', 'tuple'},
    'MutableSequence': {'list', 'bytearray'}, 'Set': {'set'},
    'Iterable': set(SIZED), 'Sized': set(SIZED), 'Container': set(SIZED),
    'Collection': set(SIZED),
    'Hashable': {'None', 'bool', 'int', 'float', 'str', 'bytes', 'tuple'},
}
NUMBERS = {'Number': set(NUM), 'Real': set(NUM), 'Integral': {'int', 'bool'},
           'Rational': {'int', 'bool'}, 'Complex': set(NUM)}


def ext(*names):
    def deco(f):
        for x in names:
            REG[x] = f
        return f
    return deco


def arg(args, kws, i, name, default=None):
    if i < len(args):
        return args[i]
    return kws.get(name, default)


class Lib:
    # ------------------------------------------------------------- dispatch
    def call(self, f, args, kws, st, n, fr):
        if isinstance(f, Native):
            return self.call_native(f, args, kws, st, n, fr)
        return self.call_ext(f, args, kws, st, n, fr)

    def call_unknown(self, f, args, kws, st, n, fr):
        e = self.e
        t = self.term('call', [f] + list(args), kws, st)
        e.gap('a call of an unknown value', f)
        s = e.may_raise(st, ['Exception'], t, n, fr)
        if s is None:
            return []
        s = s.fork()
        s.event('call', e.freeze(f, s), tuple(t.args[1:]), e.loc(n, fr))
        return [(s, t)]

    def term(self, op, args, kws, st):
        f = self.e.freeze
        out = [f(a, st) for a in args]
        for k in sorted(kws):
            out.append(App('kw', k, f(kws[k], st)))
        return App(op, *out)

    def call_ext(self, f, args, kws, st, n, fr):
        e = self.e
        name = f.name
        h = REG.get(name)
        if h is not None:
            if name.startswith('builtins.') and any(
                    isinstance(a, Phi) for a in args):
                out = []
                for s, a2 in self.split_all(args, st):
                    out.extend(h(self, a2, kws, s, n, fr))
                return out
            return h(self, args, kws, st, n, fr)
        if e.py_exc(f) is not None or name in EXC_BASES:
            s = st.fork()
            return [(s, e.new(s, Obj('exc', f, {
                'args': Tup(*args), '\0origin': C(''), '\0exact': TRUE,
                '\0loc': C(e.loc(n, fr) if n is not None else '')})))]
        head, _, last = name.rpartition('.')
        if head.startswith('builtins.') and head[9:] in NTYPES and args:
            return self.method(head[9:], last, args[0], args[1:], kws, st, n,
                               fr)
        if head == 'hash' or name.startswith('hash.'):
            return self.new_hasher(C(last), args, kws, st, n, fr)
        if head == 'operator':
            op = OPFN.get(last)
            if op is not None and len(args) == 2:
                return self.binop_vals(op, args[0], args[1], st, n, fr)
            if last in CMPFN and len(args) == 2:
                return [(s, C(b)) for s, b in e.compare(
                    CMPFN[last](), args[0], args[1], st, n, fr)]
        if head in ('math',) and all(isinstance(a, C) for a in args) and \
                hasattr(math, last):
            try:
                return [(st, C(getattr(math, last)(*[a.v for a in args])))]
            except (ValueError, TypeError, OverflowError):
                pass
        if head.startswith('typing') or head.startswith('abc'):
            return [(st, args[-1] if args and head.startswith('abc')
                     else App('typing', name))]
        t = self.term('call', [f] + list(args), kws, st)
        e.gap(name)
        s = e.may_raise(st, ['Exception'], t, n, fr)
        if s is None:
            return []
        s = s.fork()
        s.event('extcall', name, tuple(t.args[1:]), e.loc(n, fr))
        return [(s, t)]

    def split_all(self, args, st):
        live = [(st, [])]
        for a in args:
            live = [(s2, acc + [x]) for s, acc in live
                    for s2, x in self.e.split(a, s)]
        return live

    def binop_vals(self, op, a, b, st, n, fr):
        out = []
        for s, x in self.e.split(a, st):
            for s2, y in self.e.split(b, s):
                if isinstance(x, C) and isinstance(y, C):
                    try:
                        out.append((s2, C(PYOPS[op](x.v, y.v))))
                        continue
                    except Exception as ex:   # noqa
                        self.e.raise_(s2.fork(), type(ex).__name__, (), n,
                                      fr)
                        continue
                out.extend(self.binop(op, x, y, s2, n, fr))
        return out

    # -------------------------------------------------------------- natives
    def call_native(self, f, args, kws, st, n, fr):
        e = self.e
        k = f.k[0]
        if k == 'bound':
            return self.method(f.k[1], f.k[2], f.k[3], args, kws, st, n, fr)
        if k == 'unbound':
            if f.k[1] == 'object':
                if f.k[2] == '__new__' and args and isinstance(args[0], Cls):
                    return [e.alloc(args[0], [], {}, st)]
                if args:
                    return self.objmeth(f.k[2], args[0], args[1:], kws, st,
                                        n, fr)
            if f.k[2] in ('fromkeys', 'fromhex', 'from_bytes'):
                return self.call_ext(Ext('builtins.%s.%s' % (f.k[1], f.k[2])),
                                     args, kws, st, n, fr)
            if not args:
                e.raise_(st.fork(), 'TypeError', (C('unbound'),), n, fr)
                return []
            return self.method(f.k[1], f.k[2], args[0], args[1:], kws, st, n,
                               fr)
        if k == 'identity':
            return [(st, args[0])]
        if k == 'ntmake':
            out = []
            for s, items in e.iterate(args[0], st, n, fr):
                out.extend(e.nt_make(f.k[1], items, {}, s, n, fr))
            return out
        if k == 'objnew':
            cls = args[0] if args else f.k[1]
            if isinstance(cls, Cls):
                if e.classes[cls.k[0]].ntfields:
                    return e.nt_make(cls, args[1:], kws, st, n, fr)
                return [e.alloc(cls, [], {}, st)]
            return [(st, App('object', e.freeze(cls, st)))]
        if k == 'objinit':
            return self.objinit(f.k[1], args, kws, st, n, fr)
        if k == 'objmeth':
            return self.objmeth(f.k[1], f.k[2], args, kws, st, n, fr)
        if k in ('propsetter', 'propgetter', 'propdeleter'):
            g, s_ = f.k[1].k[0], f.k[1].k[1]
            if k == 'propsetter':
                return [(st, Prop(g, args[0]))]
            if k == 'propgetter':
                return [(st, Prop(args[0], s_))]
            return [(st, f.k[1])]
        if k == 'cache_clear':
            s = st.fork()
            s.event('cache_clear', f.k[1].k[0], e.loc(n, fr))
            s.heap[('cache', f.k[1].k[0])] = Obj('list', None, {}, ())
            return [(s, NONE)]
        if k == 'cache_info':
            return [(st, App('cacheinfo', f.k[1].k[0]))]
        if k == 'fnget':
            if args and args[0] != NONE:
                return [(st, Bound(f.k[1], args[0]))]
            return [(st, f.k[1])]
        if k == 'logger':
            return [(st, f)]
        if k == 'log':
            s = st.fork()
            s.event('log', f.k[1], tuple(e.freeze(a, s) for a in args)
                    + tuple(e.freeze(v, s) for _, v in sorted(kws.items())),
                    e.loc(n, fr))
            return [(s, NONE if f.k[1] not in (
                'isEnabledFor', 'getEffectiveLevel', 'getChild')
                else App('logstate'))]
        if k == 'ciphering':
            return self.ciphering(f.k[1], args, st, n, fr)
        if k == 'lru':
            return [(st, Cached(args[0], f.k[1]))]
        if k == 'itemgetter':
            return e.getitem(args[0], f.k[1], st, n, fr) \
                if len(f.k) == 2 else self.multi(
                    [lambda s, i=i: e.getitem(args[0], i, s, n, fr)
                     for i in f.k[1:]], st)
        if k == 'attrgetter':
            res = [(st, args[0])]
            for part in f.k[1].split('.'):
                res = [r for s, v in res
                       for r in e.getattr(v, part, s, n, fr)]
            return res
        if k == 'methodcaller':
            return [r for s, m in e.getattr(args[0], f.k[1], st, n, fr)
                    for r in e.call(m, list(f.k[2]), dict(f.k[3]), s, n, fr)]
        if k in ('keys', 'values', 'items', 'range', 'struct'):
            e.raise_(st.fork(), 'TypeError', (C('not callable'),), n, fr)
            return []
        return self.call_unknown(f, args, kws, st, n, fr)

    def multi(self, fs, st):
        live = [(st, [])]
        for f in fs:
            live = [(s2, acc + [v]) for s, acc in live for s2, v in f(s)]
        return [(s, Tup(*acc)) for s, acc in live]

    def objinit(self, me, args, kws, st, n, fr):
        e = self.e
        o = e.o(me, st) if isinstance(me, Ref) else None
        if o is None:
            return [(st, NONE)]
        if e.is_dictlike(o):
            return [(s, NONE) for s, _ in self.m_dict_init(
                me, args, kws, st, n, fr)]
        if o.kind == 'exc':
            s = st.fork()
            s.heap[me.addr] = o.with_attr('args', Tup(*args))
            return [(s, NONE)]
        eb = e.ext_base(o.cls)
        if eb is not None:
            s = st.fork()
            s.event('extinit', eb.name, tuple(e.freeze(a, s) for a in args)
                    + tuple(App('kw', k, e.freeze(v, s))
                            for k, v in sorted(kws.items())), e.loc(n, fr))
            if eb.name in ('pyelliptic.ECC', 'pyelliptic.ecc.ECC'):
                return self.ecc_init(me, args, kws, s, n, fr)
            return [(s, NONE)]
        if args or kws:
            e.raise_(st.fork(), 'TypeError', (C('object.__init__'),), n, fr)
            return []
        return [(st, NONE)]

    def ecc_init(self, me, args, kws, st, n, fr):
        """pyelliptic.ECC: takes the given key pair or generates one"""
        e = self.e
        names = ('pubkey', 'privkey', 'pubkey_x', 'pubkey_y', 'raw_privkey',
                 'curve')
        a = {k: arg(args, kws, i, k, NONE) for i, k in enumerate(names)}
        x, y, k = a['pubkey_x'], a['pubkey_y'], a['raw_privkey']
        if x == NONE or y == NONE:
            k = e.fresh('ecckey')
            st = st.fork()
            again = any(ev[0] == 'keygen' for ev in st.ev)
            st.event('keygen', k, a['curve'], e.loc(n, fr))
            p = App('point', App('pubkey', App('privkey', k)))
            x, y = self.cut(p, 0, 32, st), self.cut(p, 32, None, st)
        else:
            if not self.key_matches(k, x, y, st):
                e.raise_(st.assume(App('badkeys', x, y, k), True),
                         'Exception', (C('Bad ECC keys'),), n, fr,
                         exact=False)
            st = st.fork()
        o = e.o(me, st)
        for nm, v in (('pubkey_x', x), ('pubkey_y', y), ('privkey', k)):
            o = o.with_attr(nm, v)
        st.heap[me.addr] = o
        if not (isinstance(k, App) and k.op == 'fresh'):
            return [(st, NONE)]
        # generated keys may come out a byte short; once is enough to see
        # what is done about it
        return [(s, NONE) for m in ((32,) if again else (32, 31))
                for s, ok in e.compare(ast.Eq(), App('len', k), C(m), st,
                                       n, fr) if ok]

    def key_matches(self, k, x, y, st):
        p = App('point', App('pubkey', App('privkey', self.e.freeze(k, st))))
        return cat(x, y) == p or \
            (x, y) == (self.cut(p, 0, 32, st), self.cut(p, 32, None, st))

    def objmeth(self, name, me, args, kws, st, n, fr):
        e = self.e
        if name == 'raw_check_key' and len(args) == 3:
            if self.key_matches(*args, st):
                return [(st, C(0))]
            atom = App('badkeys', e.freeze(args[1], st),
                       e.freeze(args[2], st), e.freeze(args[0], st))
            return [(s, C(-1 if bad else 0))
                    for s, bad in e.fork_atom(atom, st)]
        if name == '__setattr__':
            out = []
            if isinstance(args[0], C):
                for s in e.setattr(me, args[0].v, args[1], st, n, fr,
                                   raw=True):
                    out.append((s, NONE))
                return out
            return [(self.unknown_setattr(me, args[0], args[1], st, n, fr),
                     NONE)]
        if name == '__getattribute__' and isinstance(args[0], C):
            return e.getattr(me, args[0].v, st, n, fr)
        if name in ('__eq__', '__ne__'):
            return [(st, C((me == args[0]) == (name == '__eq__')))] \
                if me == args[0] else [(st, Ext('builtins.NotImplemented'))]
        if name in ('__str__', '__repr__', '__format__'):
            o = e.o(me, st) if isinstance(me, Ref) else None
            if o is not None and o.kind == 'exc':
                a = o.attrs.get('args')
                return [(st, App('excstr', e.freeze(a, st)
                                 if isinstance(a, Val) else NONE))]
            return [(st, App('repr', e.freeze(me, st)))]
        if name in ('__hash__',):
            return [(st, App('hash', e.freeze(me, st)))]
        if name == '__init__':
            return self.objinit(me, args, kws, st, n, fr)
        return [(st, NONE)]

    def unknown_setattr(self, me, name, val, st, n, fr):
        e = self.e
        s = st.fork()
        s.event('setattr?', e.freeze(me, s), e.freeze(name, s),
                e.freeze(val, s), e.loc(n, fr))
        e.top('setattr with a computed name', n, fr)
        return s

    # ------------------------------------------------------------- exceptions
    def capture(self, exc, run, st):
        """Run `run(st)`; list of results, and the states in which it raised
        an exception of class exc (others go to the sink)"""
        e = self.e
        cls = e.exc_class(exc)
        saved, e.sink = e.sink, []
        e.tries.append([cls])
        try:
            res = run(st)
        finally:
            e.tries.pop()
            raised, e.sink = e.sink, saved
        caught = []
        for s, x in raised:
            for idx, s2 in e.match_exc(x, s, [cls]):
                if idx is None:
                    e.sink.append((s2, x))
                else:
                    caught.append(s2)
        return res, caught

    # ------------------------------------------------------------- isinstance
    def isinst(self, v, c, st, n, fr):
        """list of (state, bool)"""
        e = self.e
        if isinstance(c, Tup):
            live, out = [st], []
            for x in c.items:
                nxt = []
                for s in live:
                    for s2, b in self.isinst(v, x, s, n, fr):
                        (out if b else nxt).append((s2, True) if b else s2)
                live = nxt
            return out + [(s, False) for s in live]
        if isinstance(c, App) and c.op == 'bitor':
            return self.isinst(v, Tup(*c.args), st, n, fr)
        if c == NONE:
            c = Ext('builtins.NoneType')
        if isinstance(v, Phi):
            return [r for s, x in e.split(v, st)
                    for r in self.isinst(x, c, s, n, fr)]
        if isinstance(v, Ref):
            o = e.o(v, st)
            kc = o.cls if o.cls is not None else Ext('builtins.object')
            r = self.known_sub(kc, c)
            if r is None:
                return e.fork_atom(App('isinst', e.freeze(v, st), c), st)
            return [(st, r)]
        if isinstance(v, NT):
            return [(st, c in e.mro(v.cls) or c in (
                Ext('builtins.tuple'), Ext('builtins.object')))]
        if isinstance(v, EnumM):
            return [(st, c in e.mro(v.k[0]) or c == Ext('builtins.object')
                     or e.enum_is_str(v.k[0]) and c == Ext('builtins.str'))]
        if isinstance(v, (Cls, Ext)):
            return [(st, c in (Ext('builtins.type'),
                               Ext('builtins.object')))]
        if isinstance(v, App) and v.op == 'enum':
            if isinstance(c, Cls):
                return [(st, c in e.mro(v.args[0]))]
            return [(st, c in e.mro(v.args[0]) or
                     c == Ext('builtins.object'))]
        if isinstance(v, App) and v.op == 'lin' and v.args[0] in ('td',
                                                                  'dt'):
            want = {'td': 'datetime.timedelta',
                    'dt': 'datetime.datetime'}[v.args[0]]
            return [(st, isinstance(c, Ext) and c.name in (
                want, 'builtins.object', 'datetime.date'
                if want == 'datetime.datetime' else ''))]
        if isinstance(v, C) and isinstance(v.v, datetime.timedelta):
            return [(st, c in (Ext('datetime.timedelta'),
                               Ext('builtins.object')))]
        if c == Ext('builtins.object'):
            return [(st, True)]
        want = None
        if isinstance(c, Ext):
            last = c.name.rpartition('.')[2]
            if c.name.startswith('builtins.'):
                want = NTYPES.get(last)
            elif c.name.startswith('collections.abc.') or \
                    c.name.startswith('typing.'):
                want = ABC.get(last)
            elif c.name.startswith('numbers.'):
                want = NUMBERS.get(last)
            if c.name == 'collections.abc.Callable':
                if isinstance(v, (Fn, Bound, Native, Partial, Cached)):
                    return [(st, True)]
        if isinstance(v, (Fn, Bound, Native, Partial, Cached, Mod)):
            return [(st, False)]
        ty = e.types_of(v, st)
        if ty is None:
            ty = UNIVERSE
        if want is not None:
            yes = ty & frozenset(want)
            exact = isinstance(c, Ext) and c.name.startswith('builtins.')
            out = []
            if ty <= frozenset(want):
                return [(st, True)]
            fuzzy = 'other' in ty and not exact
            if yes:
                s = st.fork()
                s.ty[v] = yes
                out.append((s, True))
            no = ty - frozenset(want)
            if no:
                s = st.fork()
                if yes:
                    s.ty[v] = no
                if fuzzy:
                    out.extend(e.fork_atom(App('isinst', v, c), s))
                else:
                    out.append((s, False))
            return out
        if isinstance(c, Cls):
            could = 'other' in ty
            if any(e.is_dictlike(Obj('inst', c)) for _ in (0,)):
                could = could or 'dict' in ty
            if e.classes[c.k[0]].ntfields:
                could = could or 'tuple' in ty
            if e.enum_is_str(c):
                could = could or 'str' in ty
            if not could:
                return [(st, False)]
        elif 'other' not in ty:
            return [(st, False)]
        if isinstance(v, App) and v.op in ('uuid', 'uuid1', 'uuid4',
                                           'uuidfrombytes') and \
                c == Ext('uuid.UUID'):
            return [(st, True)]
        out = []
        for s, b in e.fork_atom(App('isinst', e.freeze(v, st), c), st):
            if b and ty - {'other', 'dict', 'tuple', 'str'} != ty:
                s = s.fork()
                s.ty[v] = ty & {'other', 'dict', 'tuple', 'str'} \
                    if isinstance(c, Cls) else ty & {'other'}
            out.append((s, b))
        return out

    def known_sub(self, a, b):
        """issubclass for known classes: True/False/None"""
        e = self.e
        if a == b or b == Ext('builtins.object'):
            return True
        if e.exc_sub(a, b):
            return True
        m = e.mro(a)
        if b in m:
            return True
        if isinstance(b, Ext):
            last = b.name.rpartition('.')[2]
            for x in m:
                if not isinstance(x, Ext):
                    continue
                t = x.name.rpartition('.')[2]
                if x.name == 'collections.OrderedDict' or \
                        x.name == 'collections.defaultdict':
                    t = 'dict'
                if b.name == 'builtins.dict' and t == 'dict':
                    return True
                if b.name.startswith('collections.abc.') and \
                        last in ABC and t in ABC[last]:
                    return True
                if b.name == 'builtins.int' and t == 'bool':
                    return True
            for x in m:
                if isinstance(x, Ext) and not x.name.startswith(
                        ('builtins.', 'enum.', 'collections.')):
                    return None
        return False

    # ---------------------------------------------------------- generic items
    def each(self, seg, st, run):
        """Analyse run(state, value)->[(state, [values])] for a generic
        element of seg.  Returns (state after, items)."""
        e = self.e
        start = st.fork()
        e.assume_all(start, seg.conds)
        mark = len(e.sink)
        paths = run(start, seg.val)
        after = st.fork()
        items, ds = [], []
        for s, vals in paths:
            for a, o in s.heap.items():
                if e.obj(a, st) is None:
                    after.heap[a] = o
            d = e.delta(st, s)
            ds.append(d)
            for v in vals:
                m = Many(seg.seq, v, d if len(paths) > 1 else seg.conds)
                if m not in items:
                    items.append(m)
            for x in s.ev[len(st.ev):]:
                if x not in after.ev:
                    after.ev = after.ev + (x,)
        if len(e.sink) > mark:
            fa = App('forall', seg.seq, frozenset(ds))
            after.facts[fa] = True
            for s, _ in e.sink[mark:]:
                s.facts[fa] = False
        return after, items

    def map_items(self, items, st, run):
        live = [(st, [])]
        for it in items:
            nxt = []
            for s, acc in live:
                if isinstance(it, Many):
                    s2, more = self.each(it, s, run)
                    nxt.append((s2, acc + more))
                else:
                    nxt.extend((s2, acc + vs) for s2, vs in run(s, it))
            live = nxt
        return live

    def new_gen(self, st, items):
        return self.e.new(st, Obj('gen', Ext('builtins.generator'), None,
                                  tuple(items)))

    # ------------------------------------------------------------ containers
    def m_list_extend(self, v, args, kw, st, n, fr):
        e = self.e
        out = []
        for s, items in e.iterate(args[0], st, n, fr):
            s = s.fork()
            o = e.o(v, s)
            s.heap[v.addr] = o.but(data=o.data + tuple(items))
            out.append((s, NONE))
        return out

    def pairs(self, v, st, n, fr):
        """Items of something given to dict()/update(): list of
        (state, [(k, v) or Many], src, gone)"""
        e = self.e
        out = []
        for s, x in e.split(v, st):
            if isinstance(x, Ref) and e.is_dictlike(e.o(x, s)):
                o = e.o(x, s)
                out.append((s, list(o.data), o.src, o.gone))
                continue
            ty = e.types_of(x, s)
            if not isinstance(x, (Ref, Tup, Native, C)) and (
                    ty is None or ty & {'dict', 'other'}):
                if ty != frozenset(['dict']):
                    s2 = e.may_raise(s, ['TypeError', 'ValueError'],
                                     App('mapping', x), n, fr)
                    if s2 is None:
                        continue
                    s = s2
                out.append((s, [], x, frozenset()))
                continue
            for s2, items in e.iterate(x, s, n, fr):
                live = [(s2, [])]
                for it in items:
                    nxt = []
                    for s3, acc in live:
                        if isinstance(it, Many):
                            nxt.append((s3, acc + [it]))
                            continue
                        for s4, kv in e.iterate(it, s3, n, fr):
                            if len(kv) != 2 or any(isinstance(q, Many)
                                                   for q in kv):
                                e.raise_(s4.fork(), 'ValueError',
                                         (C('pairs'),), n, fr)
                                continue
                            nxt.append((s4, acc + [tuple(kv)]))
                    live = nxt
                out.extend((s3, acc, None, frozenset()) for s3, acc in live)
        return out

    def m_dict_update(self, ref, args, kws, st, n, fr):
        e = self.e
        kws = dict(kws)
        openkw = kws.pop('**', None)
        srcs = [(st, [], None, frozenset())]
        if args:
            srcs = self.pairs(args[0], st, n, fr)
        out = []
        for s, items, src, gone in srcs:
            states = [s]
            for it in items + [(C(k), v) for k, v in kws.items()]:
                nxt = []
                for s2 in states:
                    if isinstance(it, Many):
                        s3 = s2.fork()
                        o = e.o(ref, s3)
                        s3.heap[ref.addr] = o.but(data=o.data + (it,))
                        nxt.append(s3)
                    else:
                        nxt.extend(e.dict_set(ref, it[0], it[1], s2, n, fr))
                states = nxt
            for s2 in states:
                s2 = s2.fork()
                for q in (src, openkw):
                    if q is None:
                        continue
                    o = e.o(ref, s2)
                    if o.src is None and not o.data:
                        s2.heap[ref.addr] = o.but(src=q, gone=gone)
                    else:
                        # unknown keys on top of known ones
                        k = App('elem', q)
                        s2.heap[ref.addr] = o.but(data=o.data + (Many(
                            q, Tup(k, App('item', q, k)), frozenset()),))
                out.append((s2, NONE))
        return out

    def m_dict_init(self, obj, args, kws, st, n, fr):
        return self.m_dict_update(obj, args, kws, st, n, fr)

    # --------------------------------------------------------------- methods
    def method(self, t, name, me, args, kws, st, n, fr):
        e = self.e
        if isinstance(me, Phi):
            return [r for s, x in e.split(me, st)
                    for r in self.method(t, name, x, args, kws, s, n, fr)]
        if t == '?':
            ty = e.types_of(me, st) or UNIVERSE
            if isinstance(me, Ref):
                t = sorted(ty)[0]
        if t in ('frozenset',):
            t = 'set'
        if isinstance(me, Ref):
            o = e.o(me, st)
            if o is not None:
                if o.kind == 'gen' and t != 'gen':
                    t = 'gen'
                m = getattr(self, 'm_%s_%s' % (t, name.strip('_')), None)
                if m is not None:
                    return m(me, args, kws, st, n, fr)
        else:
            m = getattr(self, 'v_%s_%s' % (t, name.strip('_')), None)
            if m is not None:
                r = m(me, args, kws, st, n, fr)
                if r is not None:
                    return r
            if t in ('dict', 'list', 'set', 'tuple', '?'):
                m = getattr(self, 'v_any_%s' % name.strip('_'), None)
                if m is not None:
                    r = m(me, args, kws, st, n, fr)
                    if r is not None:
                        return r
        # constants: let Python do it
        if isinstance(me, C) and all(isinstance(a, C) for a in args) and \
                all(isinstance(a, C) for a in kws.values()):
            try:
                r = getattr(me.v, name)(*[a.v for a in args], **{
                    k: a.v for k, a in kws.items()})
                if isinstance(r, (list, tuple)):
                    s = st.fork()
                    items = [C(x) for x in r]
                    return [(s, e.new_list(s, items)
                             if isinstance(r, list) else Tup(*items))]
                return [(st, C(r))]
            except Exception as ex:   # noqa
                e.raise_(st.fork(), type(ex).__name__
                         if type(ex).__module__ == 'builtins'
                         else 'ValueError', (C(name),), n, fr)
                return []
        return self.opaque_method(t, name, me, args, kws, st, n, fr)

    MUTATORS = {'list': {'append', 'extend', 'insert', 'remove', 'pop',
                         'clear', 'sort', 'reverse', '__setitem__',
                         '__delitem__'},
                'dict': {'update', 'setdefault', 'pop', 'popitem', 'clear',
                         '__setitem__', '__delitem__'},
                'set': {'add', 'discard', 'remove', 'pop', 'clear', 'update',
                        'intersection_update', 'difference_update',
                        'symmetric_difference_update'}}

    def opaque_method(self, t, name, me, args, kws, st, n, fr):
        e = self.e
        tm = self.term('mcall', [me, C(name)] + list(args), kws, st)
        s = st
        if t not in ('str', 'bytes', 'int', 'float') or args:
            s = e.may_raise(st, ['Exception'], tm, n, fr)
            if s is None:
                return []
        s = s.fork()
        if name in self.MUTATORS.get(t, ()) or t == '?':
            s.event('mutate', e.freeze(me, s), name, tuple(tm.args[2:]),
                    e.loc(n, fr))
            if isinstance(me, Ref):
                e.top('%s.%s' % (t, name), n, fr)
        if t == 'str' and isinstance(me, App) and me.op == 'hex':
            # lower case digits, no other characters
            if name in ('lower', 'casefold') or name in (
                    'strip', 'lstrip', 'rstrip', 'removeprefix',
                    'removesuffix') and all(
                        a == NONE or isinstance(a, C) and
                        isinstance(a.v, str) and (
                            not set(a.v) & set('0123456789abcdef')
                            or name.startswith('remove') and
                            set(a.v) - set('0123456789abcdef'))
                        for a in args):
                return [(s, me)]
        if t in ('str',) and name in (
                'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'replace',
                'title', 'capitalize', 'zfill', 'ljust', 'rjust', 'join',
                'format', 'casefold', 'swapcase', 'expandtabs', 'center',
                'removeprefix', 'removesuffix', 'translate'):
            return [(s, App('strop', C(name), *tm.args[:1] + tm.args[2:]))]
        if t == 'bytes' and name in (
                'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'replace',
                'title', 'capitalize', 'zfill', 'ljust', 'rjust', 'join',
                'swapcase', 'expandtabs', 'center', 'removeprefix',
                'removesuffix', 'translate'):
            return [(s, App('bytesop', C(name), *tm.args[:1] + tm.args[2:]))]
        e.gap('%s.%s' % (t, name), me)
        return [(s, tm)]

    # ---- list
    def m_list_append(self, v, args, kws, st, n, fr):
        s = st.fork()
        o = self.e.o(v, s)
        s.heap[v.addr] = o.but(data=o.data + (args[0],))
        return [(s, NONE)]

    def m_list_insert(self, v, args, kws, st, n, fr):
        s = st.fork()
        o = self.e.o(v, s)
        d = list(o.data)
        if isinstance(args[0], C):
            d.insert(args[0].v, args[1])
        else:
            d.append(args[1])
        s.heap[v.addr] = o.but(data=tuple(d))
        return [(s, NONE)]

    def m_list_copy(self, v, args, kws, st, n, fr):
        s = st.fork()
        return [(s, self.e.new(s, self.e.o(v, s)))]

    m_set_copy = m_list_copy

    def m_list_clear(self, v, args, kws, st, n, fr):
        s = st.fork()
        s.heap[v.addr] = self.e.o(v, s).but(data=(), src=None)
        return [(s, NONE)]

    m_set_clear = m_list_clear
    m_dict_clear = m_list_clear

    def m_list_pop(self, v, args, kws, st, n, fr):
        e = self.e
        o = e.o(v, st)
        i = args[0].v if args and isinstance(args[0], C) else -1
        if args and not isinstance(args[0], C) or any(
                isinstance(x, Many) for x in o.data):
            s = e.may_raise(st, ['IndexError'], App('pop', e.freeze(v, st)),
                            n, fr)
            return [] if s is None else [(s, e.top('list.pop', n, fr))]
        try:
            x = o.data[i]
        except IndexError:
            e.raise_(st.fork(), 'IndexError', (), n, fr)
            return []
        d = list(o.data)
        del d[i]
        s = st.fork()
        s.heap[v.addr] = o.but(data=tuple(d))
        return [(s, x)]

    def m_list_remove(self, v, args, kws, st, n, fr):
        e = self.e
        o = e.o(v, st)
        out, live = [], [st]
        for i, it in enumerate(o.data):
            nxt = []
            for s in live:
                if isinstance(it, Many):
                    s2 = s.fork()
                    e.top('list.remove', n, fr)
                    out.append((s2, NONE))
                    continue
                for s2, b in e.eq(args[0], it, s, n, fr):
                    if b:
                        s2 = s2.fork()
                        s2.heap[v.addr] = o.but(
                            data=o.data[:i] + o.data[i + 1:])
                        out.append((s2, NONE))
                    else:
                        nxt.append(s2)
            live = nxt
        for s in live:
            e.raise_(s.fork(), 'ValueError', (C('list.remove'),), n, fr)
        return out

    def m_list_sort(self, v, args, kws, st, n, fr):
        out = []
        for s, got in sort_items(self, list(self.e.o(v, st).data), kws,
                                 st.fork(), n, fr):
            s = s.fork()
            s.heap[v.addr] = self.e.o(v, s).but(data=tuple(got))
            out.append((s, NONE))
        return out

    def m_list_reverse(self, v, args, kws, st, n, fr):
        s = st.fork()
        o = self.e.o(v, s)
        s.heap[v.addr] = o.but(data=tuple(reversed(o.data)))
        return [(s, NONE)]

    def m_list_count(self, v, args, kws, st, n, fr):
        r = self.count_in(self.e.o(v, st).data, args[0], st, n, fr)
        return r or self.opaque_method('list', 'count', v, args, kws, st,
                                       n, fr)

    def m_list_index(self, v, args, kws, st, n, fr):
        e = self.e
        o = e.o(v, st)
        if all(e.is_const(x) for x in o.data) and e.is_const(args[0]):
            if args[0] in o.data:
                return [(st, C(o.data.index(args[0])))]
            e.raise_(st.fork(), 'ValueError', (), n, fr)
            return []
        return None or self.opaque_method('list', 'index', v, args, kws, st,
                                          n, fr)

    def m_list_contains(self, v, args, kws, st, n, fr):
        return [(s, C(b)) for s, b in self.e.contains(v, args[0], st, n, fr)]

    m_set_contains = m_list_contains
    m_dict_contains = m_list_contains

    def m_list_getitem(self, v, args, kws, st, n, fr):
        return self.e.getitem(v, args[0], st, n, fr)

    def m_list_len(self, v, args, kws, st, n, fr):
        return [(st, self.e.length(v, st))]

    m_set_len = m_list_len
    m_dict_len = m_list_len

    def m_list_iter(self, v, args, kws, st, n, fr):
        return [(st, v)]

    m_set_iter = m_list_iter

    # ---- gen
    def m_gen_next(self, v, args, kws, st, n, fr):
        return self.next_of(v, None, st, n, fr)

    def m_gen_iter(self, v, args, kws, st, n, fr):
        return [(st, v)]

    def m_gen_close(self, v, args, kws, st, n, fr):
        return [(st, NONE)]

    def m_gen_send(self, v, args, kws, st, n, fr):
        return self.next_of(v, None, st, n, fr)

    # ---- set
    def m_set_add(self, v, args, kws, st, n, fr):
        e = self.e
        s = st.fork()
        o = e.o(v, s)
        if args[0] not in o.data:
            s.heap[v.addr] = o.but(data=o.data + (args[0],))
        return [(s, NONE)]

    def m_set_update(self, v, args, kws, st, n, fr):
        e = self.e
        live = [st]
        for a in args:
            nxt = []
            for s in live:
                for s2, items in e.iterate(a, s, n, fr):
                    s2 = s2.fork()
                    o = e.o(v, s2)
                    s2.heap[v.addr] = o.but(data=o.data + tuple(
                        i for i in items if i not in o.data))
                    nxt.append(s2)
            live = nxt
        return [(s, NONE) for s in live]

    def inplace(op):   # noqa
        def f(self, v, args, kws, st, n, fr):
            e = self.e
            s = st
            for a in args:
                s, r = self.setop(op, v, a, s)
                s = s.fork()
                data = e.o(r, s).data if isinstance(r, Ref) else (
                    Many(r, App('elem', r), frozenset()),)
                s.heap[v.addr] = e.o(v, s).but(data=data)
            return [(s, NONE)]
        return f

    m_set_difference_update = inplace('Sub')
    m_set_intersection_update = inplace('BitAnd')
    m_set_symmetric_difference_update = inplace('BitXor')

    def m_set_discard(self, v, args, kws, st, n, fr):
        e = self.e
        o = e.o(v, st)
        s = st.fork()
        if e.is_const(args[0]) and all(e.is_const(x) for x in o.data):
            s.heap[v.addr] = o.but(data=tuple(x for x in o.data
                                              if x != args[0]))
        else:
            return self.m_set_difference_update(
                v, [Tup(args[0])], {}, s, n, fr)
        return [(s, NONE)]

    def m_set_remove(self, v, args, kws, st, n, fr):
        e = self.e
        o = e.o(v, st)
        if e.is_const(args[0]) and all(e.is_const(x) for x in o.data) and \
                args[0] not in o.data:
            e.raise_(st.fork(), 'KeyError', (args[0],), n, fr)
            return []
        return self.m_set_discard(v, args, kws, st, n, fr)

    def setfn(op):   # noqa
        def f(self, v, args, kws, st, n, fr):
            cur = [(st, v)]
            if not args:
                return self.m_list_copy(v, args, kws, st, n, fr) \
                    if isinstance(v, Ref) else [(st, v)]
            for a in args:
                cur = [self.setop(op, x, a, s) for s, x in cur]
            return cur
        return f

    m_set_union = v_any_union = v_set_union = setfn('BitOr')
    m_set_difference = v_any_difference = v_set_difference = setfn('Sub')
    m_set_intersection = v_any_intersection = v_set_intersection = \
        setfn('BitAnd')
    m_set_symmetric_difference = v_set_symmetric_difference = \
        setfn('BitXor')

    def m_set_issubset(self, v, args, kws, st, n, fr):
        return [(s, C(b)) for s, b in self.subset(v, args[0], st, n, fr)]

    v_set_issubset = v_any_issubset = m_set_issubset

    def m_set_issuperset(self, v, args, kws, st, n, fr):
        return [(s, C(b)) for s, b in self.subset(args[0], v, st, n, fr)]

    v_set_issuperset = v_any_issuperset = m_set_issuperset

    def m_set_isdisjoint(self, v, args, kws, st, n, fr):
        e = self.e
        x, y = self.set_items(v, st), self.set_items(args[0], st)
        if x is not None and y is not None and all(
                e.is_const(i) for i in x + y):
            return [(st, C(not any(i in y for i in x)))]
        if x is not None:
            live, out = [st], []
            for i in x:
                nxt = []
                for s in live:
                    for s2, b in e.contains(args[0], i, s, n, fr):
                        if b:
                            out.append((s2, FALSE))
                        else:
                            nxt.append(s2)
                live = nxt
            return out + [(s, TRUE) for s in live]
        return [(s, C(b)) for s, b in e.fork_atom(App(
            'disjoint', self.setof(v, st), self.setof(args[0], st)), st)]

    v_set_isdisjoint = v_any_isdisjoint = m_set_isdisjoint

    # ---- dict
    def m_dict_get(self, v, args, kws, st, n, fr):
        e = self.e
        d = arg(args, kws, 1, 'default', NONE)
        st = e.need_hash(args[0], st, n, fr)
        if st is None:
            return []
        return [(s, d if x is None else x) for s, x in
                e.dict_find(v, args[0], st, n, fr)]

    def m_dict_setdefault(self, v, args, kws, st, n, fr):
        e = self.e
        d = arg(args, kws, 1, 'default', NONE)
        out = []
        for s, x in e.dict_find(v, args[0], st, n, fr):
            if x is None:
                out.extend((s2, d) for s2 in
                           e.dict_set(v, args[0], d, s, n, fr))
            else:
                out.append((s, x))
        return out

    def m_dict_pop(self, v, args, kws, st, n, fr):
        e = self.e
        out = []
        for s, x in e.dict_find(v, args[0], st, n, fr):
            if x is None:
                if len(args) > 1:
                    out.append((s, args[1]))
                else:
                    e.raise_(s.fork(), 'KeyError', (args[0],), n, fr)
            else:
                out.append((e.dict_del(v, args[0], s), x))
        return out

    def m_dict_keys(self, v, args, kws, st, n, fr):
        return [(st, Native('keys', v))]

    def m_dict_values(self, v, args, kws, st, n, fr):
        return [(st, Native('values', v))]

    def m_dict_items(self, v, args, kws, st, n, fr):
        return [(st, Native('items', v))]

    def m_dict_copy(self, v, args, kws, st, n, fr):
        s = st.fork()
        o = self.e.o(v, s)
        return [(s, self.e.new(s, o.but(kind='dict', cls=Ext(
            'builtins.dict'), attrs={})))]

    def m_dict_setitem(self, v, args, kws, st, n, fr):
        return [(s, NONE) for s in self.e.dict_set(
            v, args[0], args[1], st, n, fr)]

    def m_dict_getitem(self, v, args, kws, st, n, fr):
        return self.e.dict_get(v, args[0], st, n, fr)

    def m_dict_delitem(self, v, args, kws, st, n, fr):
        return [(self.e.dict_del(v, args[0], st), NONE)]

    def m_dict_iter(self, v, args, kws, st, n, fr):
        return [(st, Native('keys', v))]

    def m_dict_popitem(self, v, args, kws, st, n, fr):
        return self.opaque_method('dict', 'popitem', v, args, kws, st, n, fr)

    # unknown dict-like values
    def v_any_get(self, v, args, kws, st, n, fr):
        e = self.e
        d = arg(args, kws, 1, 'default', NONE)
        fk = e.freeze(args[0], st)
        return [(s, App('item', v, fk) if r else d) for s, r in
                e.fork_atom(App('has', v, fk), st)]

    def v_any_keys(self, v, args, kws, st, n, fr):
        return [(st, Native('keys', v))]

    def v_any_values(self, v, args, kws, st, n, fr):
        return [(st, Native('values', v))]

    def v_any_items(self, v, args, kws, st, n, fr):
        return [(st, Native('items', v))]

    def v_any_copy(self, v, args, kws, st, n, fr):
        ty = self.e.types_of(v, st)
        if ty == frozenset(['dict']):
            s = st.fork()
            return [(s, self.e.new_dict(s, (), v))]
        return None

    def v_any_pop(self, v, args, kws, st, n, fr):
        e = self.e
        if not args:
            return None
        fk = e.freeze(args[0], st)
        out = []
        for s, r in e.fork_atom(App('has', v, fk), st):
            if r:
                s = s.fork()
                s.event('mutate', v, 'pop', (fk,), e.loc(n, fr))
                out.append((s, App('item', v, fk)))
            elif len(args) > 1:
                out.append((s, args[1]))
            else:
                e.raise_(s.fork(), 'KeyError', (args[0],), n, fr)
        return out

    # ---- str
    def v_str_encode(self, v, args, kws, st, n, fr):
        e = self.e
        enc = self.codec(arg(args, kws, 0, 'encoding'))
        err = arg(args, kws, 1, 'errors', C('strict'))
        if isinstance(v, C):
            return None
        if isinstance(v, EnumM):
            v = v.value
            if isinstance(v, C):
                return self.method('str', 'encode', v, args, kws, st, n, fr)
        if isinstance(v, App) and v.op == 'decode' and v.args[0] == enc:
            return [(st, v.args[2])]
        if isinstance(v, App) and v.op == 'cat':
            parts = []
            for p in v.args:
                r = self.method('str', 'encode', p, args, kws, st, n, fr) \
                    if isinstance(p, C) else [(st, self.enc1(enc, err, p))]
                parts.append(r[0][1])
            t = cat(*parts)
        else:
            t = self.enc1(enc, err, v)
        if enc == 'ascii' and not self.pure_ascii(v):
            st = e.may_raise(st, ['UnicodeEncodeError'], t, n, fr)
        elif enc == 'utf-8' and not self.pure_ascii(v):
            st = e.may_raise(st, ['UnicodeEncodeError'], t, n, fr)
        if st is None:
            return []
        return [(st, t)]

    def pure_ascii(self, v):
        if isinstance(v, App) and v.op == 'cat':
            return all(self.pure_ascii(p) for p in v.args)
        if isinstance(v, C):
            return isinstance(v.v, str) and v.v.isascii()
        return isinstance(v, App) and (
            v.op in ('hex', 'ethrecover', 'checksum') or v.op == 'str'
            and isinstance(v.args[0], App) and v.args[0].op in (
                'uuid', 'uuid1', 'uuid4', 'uuidfrombytes'))

    def enc1(self, enc, err, p):
        if isinstance(p, App) and p.op == 'decode' and p.args[0] == enc:
            return p.args[2]
        if self.pure_ascii(p) and enc in ('ascii', 'utf-8', 'latin-1'):
            return App('encode', 'ascii', 'strict', p)
        return App('encode', enc, err.v if isinstance(err, C) else err, p)

    def codec(self, v):
        from .models import codec
        return codec(v)

    def v_bytes_decode(self, v, args, kws, st, n, fr):
        e = self.e
        enc = self.codec(arg(args, kws, 0, 'encoding'))
        err = arg(args, kws, 1, 'errors', C('strict'))
        if isinstance(v, C):
            return None
        if isinstance(v, App) and v.op == 'encode' and (
                v.args[0] == enc or v.args[0] == 'ascii' and
                enc in ('utf-8', 'latin-1')):
            return [(st, v.args[2])]
        if isinstance(v, App) and v.op == 'cat' and all(
                isinstance(p, C) or isinstance(p, App) and p.op == 'encode'
                and p.args[0] in (enc, 'ascii') for p in v.args):
            try:
                return [(st, cat(*[C(p.v.decode(enc)) if isinstance(p, C)
                                   else p.args[2] for p in v.args]))]
            except (UnicodeDecodeError, LookupError):
                pass
        t = App('decode', enc, err.v if isinstance(err, C) else err, v)
        if err == C('strict'):
            st = e.may_raise(st, ['UnicodeDecodeError'], t, n, fr)
            if st is None:
                return []
        return [(st, t)]

    v_bytearray_decode = v_bytes_decode

    def v_bytes_hex(self, v, args, kws, st, n, fr):
        if isinstance(v, C) or args:
            return None
        return [(st, self.hexof(v))]

    v_bytearray_hex = v_bytes_hex

    def hexof(self, v):
        if isinstance(v, App) and v.op == 'unhex':
            return App('hex', v)
        return App('hex', v)

    def v_str_join(self, v, args, kws, st, n, fr):
        e = self.e
        out = []
        for s, items in e.iterate(args[0], st, n, fr):
            if any(isinstance(i, Many) for i in items):
                out.append((s, App('join' if not e.is_bytes(v, s)
                                   else 'bjoin', v, *[
                    e.freeze(i, s) for i in items])))
                continue
            parts = []
            for i, x in enumerate(items):
                if i:
                    parts.append(v)
                parts.append(x.value if isinstance(x, EnumM) else x)
            out.append((s, cat(*parts) if parts else
                        C(b'') if e.is_bytes(v, s) else C('')))
        return out

    v_bytes_join = v_str_join

    def v_str_format(self, v, args, kws, st, n, fr):
        if isinstance(v, C):
            return self.str_format(v.v, args, kws, st, n, fr)
        return [(st, self.term('fmt', [v] + list(args), kws, st))]

    def v_str_startswith(self, v, args, kws, st, n, fr):
        e = self.e
        if isinstance(v, C) or len(args) != 1 or not isinstance(args[0], C):
            return None
        k = len(args[0].v)
        if isinstance(v, App) and v.op == 'cat' and isinstance(v.args[0], C):
            p = v.args[0].v
            if len(p) >= k:
                return [(st, C(p[:k] == args[0].v))]
        part = self.cut(v, 0, k, st)
        return [(s, C(b)) for s, b in e.eq(part, args[0], st, n, fr)]

    v_bytes_startswith = v_str_startswith

    def v_str_endswith(self, v, args, kws, st, n, fr):
        e = self.e
        if isinstance(v, C) or len(args) != 1 or not isinstance(args[0], C):
            return None
        k = len(args[0].v)
        part = self.cut_pos(v, ('e', k), ('e', 0), st)
        return [(s, C(b)) for s, b in e.eq(part, args[0], st, n, fr)]

    v_bytes_endswith = v_str_endswith

    def v_str_removeprefix(self, v, args, kws, st, n, fr):
        if isinstance(v, C):
            return None
        r = self.v_str_startswith(v, args, kws, st, n, fr)
        if r is None:
            return None
        return [(s, self.cut(v, len(args[0].v), None, s)
                 if b == TRUE else v) for s, b in r]

    v_bytes_removeprefix = v_str_removeprefix

    def v_str_split(self, v, args, kws, st, n, fr):
        if isinstance(v, C) and all(isinstance(a, C) for a in args):
            return None
        return [(st, App('split', v, *args))]

    def v_str_isdigit(self, v, args, kws, st, n, fr):
        if isinstance(v, C):
            return None
        return [(s, C(b)) for s, b in self.e.fork_atom(
            App('isdigit', v), st)]

    def strpred(name):   # noqa
        def f(self, v, args, kws, st, n, fr):
            if isinstance(v, C):
                return None
            return [(s, C(b)) for s, b in self.e.fork_atom(
                App(name, v), st)]
        return f

    for _p in ('isalpha', 'isalnum', 'isspace', 'isupper', 'islower',
               'isascii', 'isidentifier', 'isnumeric', 'isdecimal'):
        locals()['v_str_' + _p] = strpred(_p)

    def padded(name):   # noqa
        def f(self, v, args, kws, st, n, fr):
            if isinstance(v, C) or kws or not args or not isinstance(
                    args[0], C):
                return None
            k = self.len_of(v, st)
            if k is None:
                return None
            ty = self.e.types_of(v, st)
            blank = ' ' if ty == frozenset(['str']) else b' '
            if name == 'zfill':
                return [(st, v)] if k >= args[0].v else None
            fill = args[1] if len(args) > 1 else C(blank)
            if not isinstance(fill, C):
                return None
            more = max(0, args[0].v - k)
            if name == 'center':
                left = more // 2 + (more & args[0].v & 1)
            else:
                left = more if name == 'rjust' else 0
            return [(st, cat(*[x for x in (
                C(fill.v * left), v, C(fill.v * (more - left)))
                if not isinstance(x, C) or x.v]))]
        return f

    for _p in ('ljust', 'rjust', 'center', 'zfill'):
        locals()['v_str_' + _p] = locals()['v_bytes_' + _p] = padded(_p)

    # ---- int
    def v_int_to_bytes(self, v, args, kws, st, n, fr):
        e = self.e
        size = arg(args, kws, 0, 'length', C(1))
        order = arg(args, kws, 1, 'byteorder', C('big'))
        signed = kws.get('signed', FALSE)
        if isinstance(v, C) and all(isinstance(x, C) for x in (
                size, order, signed)):
            try:
                return [(st, C(v.v.to_bytes(size.v, order.v,
                                            signed=signed.v)))]
            except OverflowError:
                e.raise_(st.fork(), 'OverflowError', (), n, fr)
                return []
        if isinstance(size, C) and isinstance(order, C) and \
                isinstance(signed, C):
            from .models import int_code
            code = int_code(size.v, signed.v)
            t = self.pack1(code, '>' if order.v == 'big' or code == 'u1'
                           else '<', v)
            if isinstance(t, App) and t.op == 'pk':
                st = e.may_raise(st, ['OverflowError'], t, n, fr)
                if st is None:
                    return []
            return [(st, t)]
        t = App('tobytes', v, size, order, signed)
        st = e.may_raise(st, ['OverflowError'], t, n, fr)
        return [] if st is None else [(st, t)]

    def v_int_bit_length(self, v, args, kws, st, n, fr):
        if isinstance(v, C):
            return None
        return [(st, App('bitlen', v))]

    def count_in(self, items, x, st, n, fr):
        if any(isinstance(i, Many) for i in items) or len(items) > 12:
            return None
        states = [(st, 0)]
        for i in items:
            states = [(s2, k + b) for s, k in states
                      for s2, b in self.e.eq(i, x, s, n, fr)]
        return [(s, C(k)) for s, k in states]

    def v_tuple_count(self, v, args, kws, st, n, fr):
        if isinstance(v, Tup):
            return self.count_in(v.items, args[0], st, n, fr)
        return None

    def v_tuple_index(self, v, args, kws, st, n, fr):
        e = self.e
        if isinstance(v, Tup) and all(e.is_const(x) for x in v.items) and \
                e.is_const(args[0]):
            if args[0] in v.items:
                return [(st, C(v.items.index(args[0])))]
            e.raise_(st.fork(), 'ValueError', (), n, fr)
            return []
        return None

    def v_namedtuple__asdict(self, v, args, kws, st, n, fr):
        s = st.fork()
        info = self.e.classes[v.cls.k[0]]
        return [(s, self.e.new_dict(s, [(C(k), x) for k, x in zip(
            info.ntfields, v.items)]))]

    v_namedtuple_asdict = v_namedtuple__asdict

    def v_namedtuple_replace(self, v, args, kws, st, n, fr):
        info = self.e.classes[v.cls.k[0]]
        items = [kws.get(k, x) for k, x in zip(info.ntfields, v.items)]
        return [(st, NT(v.cls, *items))]

    # ---- datetime
    def v_td_total_seconds(self, v, args, kws, st, n, fr):
        lv = lin_of(v)
        if lv is None:
            return [(st, App('seconds', v))]
        return [(st, mk_lin('num', lv[1], lv[2]))]

    def v_timedelta_total_seconds(self, v, args, kws, st, n, fr):
        return self.v_td_total_seconds(v, args, kws, st, n, fr)

    def v_dt_timestamp(self, v, args, kws, st, n, fr):
        lv = lin_of(v)
        if App('aware', v) in st.facts:
            return [(st, mk_lin('num', lv[1], lv[2]))]
        zs = [k for k in lv[1] if isinstance(k, App) and k.op == 'tzoffset']
        if len(zs) == 1 and lv[1][zs[0]] == 1:
            u = mk_lin('num', {k: c for k, c in lv[1].items()
                               if k != zs[0]}, lv[2])
            if u == zs[0].args[0]:
                return [(st, u)]
        return [(st, App('localstamp', mk_lin('num', lv[1], lv[2])))]

    def v_dt_replace(self, v, args, kws, st, n, fr):
        if set(kws) <= {'tzinfo'} and not args:
            s = st.fork()
            s.facts[App('aware', v)] = True
            return [(s, v)]
        return [(st, self.term('dtreplace', [v] + args, kws, st))]

    def v_dt_utctimetuple(self, v, args, kws, st, n, fr):
        lv = lin_of(v)
        return [(st, App('gmtime', mk_lin('num', lv[1], lv[2])))]

    def v_dt_timetuple(self, v, args, kws, st, n, fr):
        lv = lin_of(v)
        return [(st, App('gmtime', mk_lin('num', lv[1], lv[2])))]

    def v_dt_isoformat(self, v, args, kws, st, n, fr):
        return [(st, App('str', v))]

    # ---- hashers
    def new_hasher(self, name, args, kws, st, n, fr):
        e = self.e
        data = args[0] if args else kws.get('data', C(b''))
        if e.types_of(data, st) == frozenset(['str']):
            e.raise_(st.fork(), 'TypeError', (C('hash of str'),), n, fr)
            return []
        ty = e.types_of(data, st)
        if ty is None or not ty <= {'bytes', 'bytearray'}:
            st = e.may_raise(st, ['TypeError'], App('byteslike', data), n,
                             fr)
            if st is None:
                return []
        s = st.fork()
        return [(s, e.new(s, Obj('hasher', Ext('hash.object'), {
            'name': name, 'data': data})))]

    def m_hasher_update(self, v, args, kws, st, n, fr):
        e = self.e
        s = st.fork()
        o = e.o(v, s)
        x = args[0]
        if e.types_of(x, s) == frozenset(['str']):
            e.raise_(s, 'TypeError', (C('hash of str'),), n, fr)
            return []
        s.heap[v.addr] = o.with_attr('data', cat(o.attrs['data'], x))
        return [(s, v)]

    @staticmethod
    def hashed(name, data):
        """The hash of data; that of a constant is a constant"""
        if isinstance(data, C) and isinstance(data.v, bytes) and \
                name in ('sha1', 'sha256', 'sha512', 'sha3_256'):
            return C(hashlib.new(name, data.v).digest())
        return App(name, data)

    def m_hasher_digest(self, v, args, kws, st, n, fr):
        o = self.e.o(v, st)
        return [(st, self.hashed(o.attrs['name'].v, o.attrs['data']))]

    def m_hasher_hexdigest(self, v, args, kws, st, n, fr):
        o = self.e.o(v, st)
        d = self.hashed(o.attrs['name'].v, o.attrs['data'])
        return [(st, C(d.v.hex()) if isinstance(d, C) else App('hex', d))]

    def m_hasher_copy(self, v, args, kws, st, n, fr):
        s = st.fork()
        return [(s, self.e.new(s, self.e.o(v, s)))]

    def ciphering(self, cipher, args, st, n, fr):
        key, iv, do, name = cipher.args
        data = args[0]
        if isinstance(data, App) and data.op == 'crypt' and \
                data.args[1:4] == (key, iv, name) and \
                data.args[0] != do:
            return [(st, data.args[4])]
        s = st.fork()
        t = App('crypt', do, key, iv, name, self.e.freeze(data, s))
        s.event('crypt', t, self.e.loc(n, fr))
        return [(s, t)]

    def m_exc_with_traceback(self, v, args, kws, st, n, fr):
        return [(st, v)]

    def next_of(self, v, default, st, n, fr):
        e = self.e
        if e.unstarted(v, st) is not None:
            out = []
            for s, items in e.force(v, st):
                s = s.fork()
                out.extend(self.next_of(self.new_gen(s, items), default, s,
                                        n, fr))
            return out
        if isinstance(v, Ref):
            o = e.o(v, st)
            if o.kind == 'gen':
                if not o.data:
                    if default is not None:
                        return [(st, default)]
                    e.raise_(st.fork(), 'StopIteration', (), n, fr)
                    return []
                x = o.data[0]
                if not isinstance(x, Many):
                    s = st.fork()
                    s.heap[v.addr] = o.but(data=o.data[1:])
                    return [(s, x)]
                # first element satisfying the conditions, if there is one
                out = []
                atom = App('exists', x.seq, frozenset([x.conds]))
                for s, b in e.fork_atom(atom, st):
                    if b:
                        s = s.fork()
                        e.assume_all(s, x.conds)
                        out.append((s, x.val))
                    else:
                        s = s.fork()
                        s.heap[v.addr] = o.but(data=o.data[1:])
                        out.extend(self.next_of(v, default, s, n, fr))
                return out
        t = App('next', e.freeze(v, st))
        s = e.may_raise(st, ['StopIteration'], t, n, fr)
        if s is None:
            return []
        return [(s, t)]


EXC_BASES = {'struct.error', 'binascii.Error', 'cbor.CBORError',
             'eth_keys.exceptions.BadSignature'}
OPFN = {}
CMPFN = {}
PYOPS = {}
T = Fraction


# =================================================================== builtins

@ext('builtins.isinstance')
def _isinstance(m, args, kws, st, n, fr):
    return [(s, C(b)) for s, b in m.isinst(args[0], args[1], st, n, fr)]


@ext('builtins.issubclass')
def _issubclass(m, args, kws, st, n, fr):
    a, b = args
    if isinstance(b, Tup):
        rs = [m.known_sub(a, x) for x in b.items] \
            if isinstance(a, (Cls, Ext)) else [None]
        if any(r is True for r in rs):
            return [(st, TRUE)]
        if all(r is False for r in rs):
            return [(st, FALSE)]
    elif isinstance(a, (Cls, Ext)) and isinstance(b, (Cls, Ext)):
        r = m.known_sub(a, b)
        if r is not None:
            return [(st, C(r))]
    return [(s, C(x)) for s, x in m.e.fork_atom(App(
        'issub', m.e.freeze(a, st), b), st)]


@ext('builtins.getattr')
def _getattr(m, args, kws, st, n, fr):
    e = m.e
    o, name = args[0], args[1]
    if isinstance(name, EnumM):
        name = name.value
    if not isinstance(name, C):
        t = App('getattr', e.freeze(o, st), e.freeze(name, st))
        if isinstance(o, Mod):
            t = App('modattr', o.k[0], name)
        if len(args) > 2:
            return [(s, t if b else args[2]) for s, b in e.fork_atom(
                App('hasattr', *t.args), st)]
        s = e.may_raise(st, ['AttributeError'], t, n, fr)
        return [] if s is None else [(s, t)]
    if not isinstance(name.v, str):
        e.raise_(st.fork(), 'TypeError', (C('attribute name'),), n, fr)
        return []
    if len(args) == 2:
        return e.getattr(o, name.v, st, n, fr)
    res, caught = m.capture('AttributeError', lambda s: e.getattr(
        o, name.v, s, n, fr), st)
    return res + [(s, args[2]) for s in caught]


@ext('builtins.hasattr')
def _hasattr(m, args, kws, st, n, fr):
    e = m.e
    if not isinstance(args[1], C):
        return [(s, C(b)) for s, b in e.fork_atom(App(
            'hasattr', e.freeze(args[0], st), args[1]), st)]
    res, caught = m.capture('AttributeError', lambda s: e.getattr(
        args[0], args[1].v, s, n, fr), st)
    return [(s, TRUE) for s, _ in res] + [(s, FALSE) for s in caught]


@ext('builtins.setattr')
def _setattr(m, args, kws, st, n, fr):
    e = m.e
    o, name, v = args
    if isinstance(name, EnumM):
        name = name.value
    if not isinstance(name, C):
        return [(m.unknown_setattr(o, name, v, st, n, fr), NONE)]
    return [(s, NONE) for s in e.setattr(o, name.v, v, st, n, fr)]


@ext('builtins.delattr')
def _delattr(m, args, kws, st, n, fr):
    s = st.fork()
    if isinstance(args[0], Ref) and isinstance(args[1], C):
        o = m.e.o(args[0], s)
        a = dict(o.attrs)
        if args[1].v not in a and not isinstance(o.src, str):
            return m.e.attr_error(args[0], args[1].v, st, n, fr)
        a[args[1].v] = App('unset', args[1].v)
        s.heap[args[0].addr] = o.but(attrs=a)
    return [(s, NONE)]


@ext('builtins.len')
def _len(m, args, kws, st, n, fr):
    e = m.e
    x = args[0]
    if isinstance(x, Ref):
        o = e.o(x, st)
        if o.kind == 'inst' and isinstance(o.cls, Cls):
            r = e.cls_lookup(o.cls, '__len__', st)
            if r is not None and isinstance(r[1], Fn):
                return e.call(Bound(r[1], x), [], {}, st, n, fr)
        if o.kind in ('inst', 'exc', 'gen') and not e.is_dictlike(o):
            e.raise_(st.fork(), 'TypeError', (C('no len()'),), n, fr)
            return []
    if isinstance(x, Cls) and e.classes[x.k[0]].enum:
        return [(st, C(len(set(e.classes[x.k[0]].members.values()))))]
    if isinstance(x, Native) and x.k[0] in ('keys', 'values', 'items'):
        return _len(m, [x.k[1]], kws, st, n, fr)
    if isinstance(x, Native) and x.k[0] == 'range':
        return [(st, C(len(range(*x.k[1]))))]
    if isinstance(x, EnumM) and e.enum_is_str(x.k[0]):
        x = x.value
    ty = e.types_of(x, st)
    if isinstance(x, C) and not isinstance(x.v, (str, bytes)) or (
            ty is not None and not ty & (SIZED | {'other'})):
        e.raise_(st.fork(), 'TypeError', (C('no len()'),), n, fr)
        return []
    if (ty is None or ty - SIZED) and not isinstance(x, (Tup, NT)):
        s = e.may_raise(st, ['TypeError'], App('len', x), n, fr)
        if s is None:
            return []
        if s is not st:
            e.refine_ty(s, x, SIZED | {'other'})
        st = s
    return [(st, e.length(x, st))]


@ext('builtins.dict')
def _dict(m, args, kws, st, n, fr):
    s = st.fork()
    ref = m.e.new_dict(s)
    return [(s2, ref) for s2, _ in m.m_dict_update(ref, args, kws, s, n, fr)]


@ext('collections.OrderedDict')
def _odict(m, args, kws, st, n, fr):
    s = st.fork()
    ref = m.e.new(s, Obj('dict', Ext('collections.OrderedDict')))
    return [(s2, ref) for s2, _ in m.m_dict_update(ref, args, kws, s, n, fr)]


@ext('collections.defaultdict')
def _ddict(m, args, kws, st, n, fr):
    s = st.fork()
    at = {'default_factory': args[0]} if args and args[0] != NONE else {}
    ref = m.e.new(s, Obj('dict', Ext('collections.defaultdict'), at))
    return [(s2, ref) for s2, _ in m.m_dict_update(
        ref, args[1:], kws, s, n, fr)]


@ext('collections.Counter', 'collections.deque', 'builtins.list')
def _list(m, args, kws, st, n, fr):
    e = m.e
    if not args:
        s = st.fork()
        return [(s, e.new_list(s))]
    out = []
    for s, items in e.iterate(args[0], st, n, fr):
        s = s.fork()
        out.append((s, e.new_list(s, items)))
    return out


@ext('builtins.iter')
def _iter(m, args, kws, st, n, fr):
    e = m.e
    if isinstance(args[0], Ref) and e.o(args[0], st).kind == 'gen':
        return [(st, args[0])]
    out = []
    for s, items in e.iterate(args[0], st, n, fr):
        s = s.fork()
        out.append((s, m.new_gen(s, items)))
    return out


@ext('builtins.next')
def _next(m, args, kws, st, n, fr):
    return m.next_of(args[0], args[1] if len(args) > 1 else None, st, n, fr)


def _mkset(frozen):
    def f(m, args, kws, st, n, fr):
        e = m.e
        if not args:
            s = st.fork()
            return [(s, e.new_set(s, (), frozen))]
        x = args[0]
        ty = e.types_of(x, st)
        if isinstance(x, App) and ty == frozenset(['set']):
            return [(st, x)]
        out = []
        for s, items in e.iterate(x, st, n, fr):
            s = s.fork()
            for it in items:
                v = it.val if isinstance(it, Many) else it
                bad = e.unhashable(v, s)
                if bad is True:
                    e.raise_(s.fork(), 'TypeError', (C('unhashable'),), n,
                             fr)
                    s = None
                    break
                if bad is None:
                    s = e.may_raise(s, ['TypeError'], App(
                        'hash', e.freeze(v, s)), n, fr)
                    if s is None:
                        break
            if s is None:
                continue
            s = s.fork()
            out.append((s, e.new_set(s, items, frozen)))
        return out
    return f


REG['builtins.set'] = _mkset(False)
REG['builtins.frozenset'] = _mkset(True)


@ext('builtins.tuple')
def _tuple(m, args, kws, st, n, fr):
    if not args:
        return [(st, Tup())]
    return [(s, Tup(*items)) for s, items in
            m.e.iterate(args[0], st, n, fr)]


@ext('builtins.str')
def _str(m, args, kws, st, n, fr):
    e = m.e
    if not args:
        return [(st, C(''))]
    if len(args) > 1 or 'encoding' in kws:
        return m.v_bytes_decode(args[0], args[1:], kws, st, n, fr) or \
            m.method('bytes', 'decode', args[0], args[1:], kws, st, n, fr)
    x = args[0]
    if isinstance(x, Ref):
        o = e.o(x, st)
        if o.kind in ('inst', 'exc') and isinstance(o.cls, Cls):
            for nm in ('__str__', '__repr__'):
                r = e.cls_lookup(o.cls, nm, st)
                if r is not None and isinstance(r[1], Fn):
                    return e.call(Bound(r[1], x), [], {}, st, n, fr)
        if o.kind == 'exc':
            return m.objmeth('__str__', x, [], {}, st, n, fr)
    return [(st, m.to_str(x, st))]


@ext('builtins.repr', 'builtins.ascii')
def _repr(m, args, kws, st, n, fr):
    e = m.e
    x = args[0]
    if isinstance(x, Ref):
        o = e.o(x, st)
        if isinstance(o.cls, Cls):
            r = e.cls_lookup(o.cls, '__repr__', st)
            if r is not None and isinstance(r[1], Fn):
                return e.call(Bound(r[1], x), [], {}, st, n, fr)
    return [(st, m.to_repr(x, st))]


@ext('builtins.int')
def _int(m, args, kws, st, n, fr):
    e = m.e
    if not args:
        return [(st, C(0))]
    x = args[0]
    base = arg(args, kws, 1, 'base')
    if isinstance(x, EnumM):
        x = x.value
    if isinstance(x, C) and (base is None or isinstance(base, C)):
        try:
            return [(st, C(int(x.v) if base is None
                           else int(x.v, base.v)))]
        except (TypeError, ValueError, OverflowError) as ex:
            e.raise_(st.fork(), type(ex).__name__, (C('int()'),), n, fr)
            return []
    if base is not None:
        t = App('int', x, base)
        if isinstance(x, App) and x.op in ('hex',) and base == C(16):
            return [(st, App('frombytes', C('big'), x.args[0]))]
        s = e.may_raise(st, ['ValueError'], t, n, fr)
        return [] if s is None else [(s, t)]
    ty = e.types_of(x, st)
    if ty is not None and ty and ty <= {'int'}:
        return [(st, x)]
    if isinstance(x, App) and x.op == 'lin' and x.args[0] == 'num' and \
            all(c.denominator == 1 and e.intlike(t, st)
                for t, c in x.args[1]) and x.args[2].denominator == 1:
        return [(st, x)]
    if ty is not None and not ty & (NUM | {'str', 'bytes', 'bytearray',
                                           'other'}):
        e.raise_(st.fork(), 'TypeError', (C('int()'),), n, fr)
        return []
    t = App('int', x)
    ok = ty if ty is not None else UNIVERSE
    if not ok <= NUM and not (isinstance(x, App) and x.op == 'lin'):
        st = e.may_raise(st, ['TypeError', 'ValueError'], t, n, fr)
        if st is None:
            return []
    if 'float' in ok and not is_now(x) and not (
            isinstance(x, App) and x.op == 'lin'):
        st = e.may_raise(st, ['ValueError', 'OverflowError'], t, n, fr)
    return [] if st is None else [(st, t)]


@ext('builtins.float')
def _float(m, args, kws, st, n, fr):
    e = m.e
    if not args:
        return [(st, C(0.0))]
    x = args[0]
    if isinstance(x, C):
        try:
            return [(st, C(float(x.v)))]
        except (TypeError, ValueError, OverflowError) as ex:
            e.raise_(st.fork(), type(ex).__name__, (C('float()'),), n, fr)
            return []
    ty = e.types_of(x, st)
    if ty is not None and ty <= {'float'}:
        return [(st, x)]
    s = st
    if ty is None or not ty <= {'float', 'int', 'bool'}:
        s = e.may_raise(st, ['TypeError', 'ValueError'], App('float', x), n,
                        fr)
    return [] if s is None else [(s, App('float', x))]


@ext('builtins.bool')
def _bool(m, args, kws, st, n, fr):
    if not args:
        return [(st, FALSE)]
    return [(s, C(b)) for s, b in m.e.truth(args[0], st, n, fr)]


@ext('builtins.bytes', 'builtins.bytearray', 'builtins.memoryview')
def _bytes(m, args, kws, st, n, fr):
    e = m.e
    if not args:
        return [(st, C(b''))]
    x = args[0]
    if len(args) > 1 or 'encoding' in kws:
        return m.method('str', 'encode', x, args[1:], kws, st, n, fr)
    if isinstance(x, C):
        try:
            return [(st, C(bytes(x.v)))]
        except (TypeError, ValueError, OverflowError, MemoryError) as ex:
            e.raise_(st.fork(), type(ex).__name__, (C('bytes()'),), n, fr)
            return []
    if e.is_bytes(x, st):
        return [(st, x)]
    if isinstance(x, (Tup, Ref)):
        for s, items in e.iterate(x, st, n, fr):
            if items and not any(isinstance(i, Many) for i in items):
                return [(s, cat(*[m.pack1('u1', '>', i) for i in items]))]
    ty = e.types_of(x, st)
    if ty is not None and ty == frozenset(['str']):
        e.raise_(st.fork(), 'TypeError', (C('bytes(str)'),), n, fr)
        return []
    t = App('bytesof', e.freeze(x, st))
    s = e.may_raise(st, ['TypeError', 'ValueError'], t, n, fr)
    return [] if s is None else [(s, t)]


def _minmax(name):
    import ast

    def f(m, args, kws, st, n, fr):
        e = m.e
        if len(args) == 1:
            srcs = e.iterate(args[0], st, n, fr)
        else:
            srcs = [(st, list(args))]
        out = []
        for s, items in srcs:
            if not items:
                if 'default' in kws:
                    out.append((s, kws['default']))
                else:
                    e.raise_(s.fork(), 'ValueError', (C(name),), n, fr)
                continue
            if 'key' in kws or any(isinstance(i, Many) for i in items):
                out.append((s, App(name, *[e.freeze(i, s) for i in items])))
                continue
            cur = [(s, items[0])]
            for x in items[1:]:
                nxt = []
                for s2, best in cur:
                    for s3, b in e.compare(
                            ast.Lt() if name == 'min' else ast.Gt(),
                            x, best, s2, n, fr):
                        nxt.append((s3, x if b else best))
                cur = nxt
            out.extend(cur)
        return out
    return f


REG['builtins.min'] = _minmax('min')
REG['builtins.max'] = _minmax('max')


def _quant(want):
    """any (want=True) / all (want=False): stops on a `want` element"""
    def f(m, args, kws, st, n, fr):
        e = m.e
        out = []
        for s, items in e.iterate(args[0], st, n, fr):
            live = [s]
            groups = {}
            for it in items:
                if isinstance(it, Many):
                    # element-wise truth partitions
                    start = s.fork()
                    e.assume_all(start, it.conds)
                    for s2, b in e.truth(it.val, start, n, fr):
                        groups.setdefault(it.seq, []).append(
                            (b, it.conds | e.delta(s, s2)))
                    continue
                nxt = []
                for s2 in live:
                    for s3, b in e.truth(it, s2, n, fr):
                        if b == want:
                            out.append((s3, C(want)))
                        else:
                            nxt.append(s3)
                live = nxt
            for seq, parts in groups.items():
                hit = frozenset(d for b, d in parts if b == want)
                miss = frozenset(d for b, d in parts if b != want)
                if not hit:
                    continue
                nxt = []
                for s2 in live:
                    # forall: every element falls in a "miss" partition
                    for s3, b in e.fork_atom(App('forall', seq, miss), s2):
                        if b:
                            nxt.append(s3)
                        else:
                            out.append((s3, C(want)))
                live = nxt
            out.extend((s2, C(not want)) for s2 in live)
        return out
    return f


REG['builtins.any'] = _quant(True)
REG['builtins.all'] = _quant(False)


@ext('builtins.sum')
def _sum(m, args, kws, st, n, fr):
    e = m.e
    out = []
    start = arg(args, kws, 1, 'start', C(0))
    for s, items in e.iterate(args[0], st, n, fr):
        if any(isinstance(i, Many) for i in items):
            out.append((s, App('sum', *[e.freeze(i, s) for i in items])))
            continue
        cur = [(s, start)]
        for x in items:
            cur = [r for s2, acc in cur
                   for r in m.binop_vals('Add', acc, x, s2, n, fr)]
        out.extend(cur)
    return out


@ext('builtins.map')
def _map(m, args, kws, st, n, fr):
    e = m.e
    f = args[0]
    out = []
    if len(args) == 2:
        for s, items in e.iterate(args[1], st, n, fr):
            for s2, res in m.map_items(items, s, lambda q, v: [
                    (q2, [r]) for q2, r in e.call(f, [v], {}, q, n, fr)]):
                s2 = s2.fork()
                out.append((s2, m.new_gen(s2, res)))
        return out
    for s, z in _zip(m, args[1:], {}, st, n, fr):
        for s1, items in e.iterate(z, s, n, fr):
            for s2, res in m.map_items(items, s1, lambda q, v: [
                    (q2, [r]) for q2, r in e.call(
                        f, list(v.items), {}, q, n, fr)]):
                s2 = s2.fork()
                out.append((s2, m.new_gen(s2, res)))
    return out


@ext('builtins.filter')
def _filter(m, args, kws, st, n, fr):
    e = m.e
    f = args[0]

    def run(q, v):
        if f == NONE:
            rs = [(q, v)]
        else:
            rs = e.call(f, [v], {}, q, n, fr)
        return [(q3, [v] if b else []) for q2, r in rs
                for q3, b in e.truth(r, q2, n, fr)]
    out = []
    for s, items in e.iterate(args[1], st, n, fr):
        for s2, res in m.map_items(items, s, run):
            s2 = s2.fork()
            out.append((s2, m.new_gen(s2, res)))
    return out


@ext('itertools.filterfalse')
def _filterfalse(m, args, kws, st, n, fr):
    e = m.e
    out = []
    for s, items in e.iterate(args[1], st, n, fr):
        for s2, res in m.map_items(items, s, lambda q, v: [
                (q3, [] if b else [v])
                for q2, r in e.call(args[0], [v], {}, q, n, fr)
                for q3, b in e.truth(r, q2, n, fr)]):
            s2 = s2.fork()
            out.append((s2, m.new_gen(s2, res)))
    return out


@ext('builtins.zip')
def _zip(m, args, kws, st, n, fr):
    e = m.e
    live = [(st, [])]
    for a in args:
        live = [(s2, acc + [items]) for s, acc in live
                for s2, items in e.iterate(a, s, n, fr)]
    out = []
    for s, lists in live:
        s = s.fork()
        if not any(isinstance(i, Many) for x in lists for i in x):
            res = [Tup(*t) for t in zip(*lists)]
        elif all(len(x) == 1 for x in lists):
            seqs = [x[0].seq if isinstance(x[0], Many)
                    else App('one', x[0]) for x in lists]
            conds = frozenset().union(*[
                x[0].conds for x in lists if isinstance(x[0], Many)])
            same = all(q == seqs[0] for q in seqs)
            res = [Many(seqs[0] if same else App('zip', *seqs), Tup(*[
                x[0].val if isinstance(x[0], Many) else x[0]
                for x in lists]), conds)]
        elif sum(any(isinstance(i, Many) for i in x) for x in lists) == 1 \
                and len([x for x in lists if len(x) == 1
                         and isinstance(x[0], Many)]) == 1:
            # unknown sequence zipped with known ones: item i of it
            k = min(len(x) for x in lists
                    if not any(isinstance(i, Many) for i in x))
            res = []
            for i in range(k):
                res.append(Tup(*[
                    App('item', x[0].seq, C(i))
                    if len(x) == 1 and isinstance(x[0], Many) else x[i]
                    for x in lists]))
        else:
            e.top('zip', n, fr)
            q = App('zip', *[App('list', *[e.freeze(i, s) for i in x])
                             for x in lists])
            res = [Many(q, App('elem', q), frozenset())]
        out.append((s, m.new_gen(s, res)))
    return out


@ext('builtins.enumerate')
def _enumerate(m, args, kws, st, n, fr):
    e = m.e
    start = arg(args, kws, 1, 'start', C(0))
    k0 = start.v if isinstance(start, C) else 0
    out = []
    for s, items in e.iterate(args[0], st, n, fr):
        s = s.fork()
        res = []
        for i, it in enumerate(items):
            if isinstance(it, Many):
                res.append(Many(it.seq, Tup(App('idx', it.seq), it.val),
                                it.conds))
            else:
                res.append(Tup(C(i + k0), it))
        out.append((s, m.new_gen(s, res)))
    return out


def sort_items(m, items, kws, st, n, fr):
    """[(state, items in order)]: constant keys are sorted, a few unknown
    ones partition by every order, generic elements stay generic"""
    e = m.e
    key = kws.get('key', NONE)
    outs = []
    for s, up in e.truth(kws.get('reverse', FALSE), st, n, fr):
        live = [(s, [])]
        for it in items:
            nxt = []
            for s2, keyed in live:
                if isinstance(it, Many):
                    s3 = s2.fork()
                    e.assume_all(s3, it.conds)
                    if key != NONE:
                        e.call(key, [it.val], {}, s3, n, fr)
                    nxt.append((s2, keyed + [(None, Many(
                        App('sorted', it.seq), it.val, it.conds))]))
                elif key == NONE:
                    nxt.append((s2, keyed + [(it, it)]))
                else:
                    for s3, k in e.call(key, [it], {}, s2, n, fr):
                        nxt.append((s3, keyed + [(k, it)]))
            live = nxt
        for s2, keyed in live:
            ks = [k for k, _ in keyed]
            if any(k is None for k in ks):
                outs.append((s2, [it if isinstance(it, Many) else Many(
                    App('sorted', Tup(it)), it, frozenset())
                    for _, it in keyed]))
            elif all(isinstance(k, C) for k in ks):
                try:
                    keyed = sorted(keyed, key=lambda x: x[0].v, reverse=up)
                except TypeError:
                    e.raise_(s2.fork(), 'TypeError', (C('sorted'),), n, fr)
                    continue
                outs.append((s2, [it for _, it in keyed]))
            elif len(keyed) > 4:
                seq = Tup(*[e.freeze(it, s2) for _, it in keyed])
                outs.append((s2, [Many(App('sorted', seq), it, frozenset())
                                  for _, it in keyed]))
            else:
                outs.extend(insert_all(e, keyed, up, s2, n, fr))
    return outs


def insert_all(e, keyed, up, st, n, fr):
    live = [(st, [])]
    op = ast.Gt() if up else ast.Lt()
    for k, it in keyed:
        nxt = []
        for s, done in live:
            todo = [(s, len(done))]
            while todo:
                s2, i = todo.pop()
                if i == 0:
                    nxt.append((s2, [(k, it)] + done))
                    continue
                for s3, b in e.compare(op, k, done[i - 1][0], s2, n, fr):
                    if b:
                        todo.append((s3, i - 1))
                    else:
                        nxt.append((s3, done[:i] + [(k, it)] + done[i:]))
        live = nxt
    return [(s, [it for _, it in done]) for s, done in live]


@ext('builtins.sorted')
def _sorted(m, args, kws, st, n, fr):
    e = m.e
    out = []
    for s, items in e.iterate(args[0], st, n, fr):
        for s2, got in sort_items(m, items, kws, s.fork(), n, fr):
            out.append((s2, e.new_list(s2, got)))
    return out


@ext('builtins.reversed')
def _reversed(m, args, kws, st, n, fr):
    e = m.e
    out = []
    for s, items in e.iterate(args[0], st, n, fr):
        s = s.fork()
        out.append((s, m.new_gen(s, list(reversed(items)))))
    return out


@ext('builtins.range')
def _range(m, args, kws, st, n, fr):
    if all(isinstance(a, C) for a in args):
        try:
            r = range(*[a.v for a in args])
        except (TypeError, ValueError):
            m.e.raise_(st.fork(), 'TypeError', (C('range'),), n, fr)
            return []
        return [(st, Native('range', tuple(a.v for a in args)))]
    return [(st, App('range', *args))]


@ext('builtins.type')
def _type(m, args, kws, st, n, fr):
    e = m.e
    if len(args) == 3:
        return [(st, e.top('type()', n, fr))]
    x = args[0]
    if isinstance(x, Ref):
        return [(st, e.o(x, st).cls)]
    if isinstance(x, C):
        if x.v is None:
            return [(st, Ext('builtins.NoneType'))]
        if isinstance(x.v, datetime.timedelta):
            return [(st, Ext('datetime.timedelta'))]
        return [(st, Ext('builtins.' + type(x.v).__name__))]
    if isinstance(x, (NT, EnumM)):
        return [(st, x.k[0])]
    if isinstance(x, Tup):
        return [(st, Ext('builtins.tuple'))]
    if isinstance(x, (Cls, Ext)):
        return [(st, Ext('builtins.type'))]
    if isinstance(x, App) and x.op == 'enum':
        return [(st, x.args[0])]
    ty = e.types_of(x, st)
    if ty is not None and len(ty) == 1 and 'other' not in ty and \
            'set' not in ty:
        t, = ty
        return [(st, Ext('builtins.' + (t if t != 'None' else 'NoneType')))]
    return [(st, App('class', e.freeze(x, st)))]


@ext('builtins.super')
def _super(m, args, kws, st, n, fr):
    return [(st, Super(args[0], args[1]))]


@ext('builtins.property', 'functools.cached_property')
def _property(m, args, kws, st, n, fr):
    g = arg(args, kws, 0, 'fget')
    return [(st, Prop(g, arg(args, kws, 1, 'fset')))]


@ext('builtins.classmethod')
def _classmethod(m, args, kws, st, n, fr):
    return [(st, CM(args[0]))]


@ext('builtins.staticmethod')
def _staticmethod(m, args, kws, st, n, fr):
    return [(st, SM(args[0]))]


@ext('abc.abstractmethod', 'typing.no_type_check', 'typing.overload',
     'functools.total_ordering', 'enum.unique', 'typing.final',
     'enum.member', 'typing.runtime_checkable')
def _identity(m, args, kws, st, n, fr):
    return [(st, args[0])]


@ext('builtins.callable')
def _callable(m, args, kws, st, n, fr):
    x = args[0]
    if isinstance(x, (Fn, Bound, Partial, Cached, Native, Cls, Ext)):
        return [(st, TRUE)]
    if isinstance(x, (C, Tup, NT, EnumM, Mod)):
        return [(st, FALSE)]
    if isinstance(x, Ref):
        o = m.e.o(x, st)
        return [(st, C(isinstance(o.cls, Cls) and m.e.cls_lookup(
            o.cls, '__call__', st) is not None))]
    ty = m.e.types_of(x, st)
    if ty is not None and 'other' not in ty:
        return [(st, FALSE)]
    return [(s, C(b)) for s, b in m.e.fork_atom(App(
        'callable', m.e.freeze(x, st)), st)]


@ext('sys.stderr.write', 'sys.stdout.write', 'sys.stdout.buffer.write',
     'sys.stderr.buffer.write')
def _write(m, args, kws, st, n, fr):
    return [(s, App('len', m.e.freeze(args[0], st)) if args else C(0))
            for s, _ in _print(m, args, kws, st, n, fr)]


@ext('builtins.print', 'warnings.warn', 'warnings.warn_explicit',
     'traceback.print_exc', 'traceback.print_stack', 'sys.stderr.flush',
     'sys.stdout.flush')
def _print(m, args, kws, st, n, fr):
    s = st.fork()
    s.event('print', tuple(m.e.freeze(a, s) for a in args), m.e.loc(n, fr))
    return [(s, NONE)]


@ext('warnings.filterwarnings', 'warnings.simplefilter', 'gc.collect',
     'logging.basicConfig', 'time.sleep')
def _nothing(m, args, kws, st, n, fr):
    return [(st, NONE)]


@ext('builtins.dir', 'builtins.vars', 'builtins.globals', 'builtins.locals')
def _dir(m, args, kws, st, n, fr):
    e = m.e
    s = st.fork()
    if not args and fr is not None:
        o = e.obj(fr.addr, s)
        names = sorted(k for k in o.attrs if not k.startswith('\0'))
        if isinstance(n, Val):
            names = names
        which = getattr(getattr(n, 'func', None), 'id', 'dir')
        if which == 'globals':
            o = e.obj(('mod', fr.mod), s)
        if which in ('globals', 'locals', 'vars'):
            return [(s, e.new_dict(s, [(C(k), v) for k, v in o.attrs.items()
                                       if not k.startswith('\0')]))]
        return [(s, e.new_list(s, [C(k) for k in names]))]
    x = args[0]
    if isinstance(x, Cls):
        names = []
        for c in e.mro(x):
            if isinstance(c, Cls):
                names.extend(e.obj(('ns', 'c', c.k[0]), s).attrs)
        return [(s, e.new_list(s, [C(k) for k in sorted(set(names))]))]
    if isinstance(x, Mod):
        o = e.obj(('mod', x.k[0]), s)
        if getattr(getattr(n, 'func', None), 'id', '') == 'vars':
            return [(s, e.new_dict(s, [(C(k), v)
                                       for k, v in o.attrs.items()]))]
        return [(s, e.new_list(s, [C(k) for k in sorted(o.attrs)]))]
    if isinstance(x, Ref) and getattr(
            getattr(n, 'func', None), 'id', '') == 'vars':
        return e.getattr(x, '__dict__', s, n, fr)
    return [(s, App('dir', e.freeze(x, s)))]


@ext('builtins.format')
def _format(m, args, kws, st, n, fr):
    return [(st, m.fmt1(args[0], '', args[1].v if len(args) > 1
                        and isinstance(args[1], C) else '', st))]


@ext('builtins.hash')
def _hash(m, args, kws, st, n, fr):
    e = m.e
    x = args[0]
    if isinstance(x, Ref):
        o = e.o(x, st)
        if o.kind == 'inst' and isinstance(o.cls, Cls):
            r = e.cls_lookup(o.cls, '__hash__', st)
            if r is not None and isinstance(r[1], Fn):
                return e.call(Bound(r[1], x), [], {}, st, n, fr)
    bad = e.unhashable(x, st)
    if bad is True:
        e.raise_(st.fork(), 'TypeError', (C('unhashable'),), n, fr)
        return []
    return [(st, App('hash', e.freeze(x, st)))]


@ext('builtins.id')
def _id(m, args, kws, st, n, fr):
    return [(st, App('id', m.e.freeze(args[0], st)))]


@ext('builtins.abs')
def _abs(m, args, kws, st, n, fr):
    import ast
    e = m.e
    x = args[0]
    if isinstance(x, C):
        return [(st, C(abs(x.v)))]
    lv = lin_of(x)
    if lv is None:
        return [(st, App('abs', e.freeze(x, st)))]
    zero = C(0) if lv[0] == 'num' else C(datetime.timedelta(0))
    out = []
    for s, b in e.compare(ast.Lt(), x, zero, st, n, fr):
        if b:
            out.append((s, mk_lin(lv[0], {t: -c for t, c in lv[1].items()},
                                  -lv[2])))
        else:
            out.append((s, x))
    return out


@ext('builtins.round', 'builtins.divmod', 'builtins.pow')
def _foldable(m, args, kws, st, n, fr):
    import builtins
    name = n.func.id if hasattr(getattr(n, 'func', None), 'id') else 'round'
    if all(isinstance(a, C) for a in args) and name in ('round', 'divmod',
                                                        'pow'):
        r = getattr(builtins, name)(*[a.v for a in args])
        return [(st, Tup(*map(C, r)) if isinstance(r, tuple) else C(r))]
    if name == 'divmod':
        out = []
        for s, q in m.binop_vals('FloorDiv', args[0], args[1], st, n, fr):
            for s2, r in m.binop_vals('Mod', args[0], args[1], s, n, fr):
                out.append((s2, Tup(q, r)))
        return out
    if name == 'pow' and len(args) == 2:
        return m.binop_vals('Pow', args[0], args[1], st, n, fr)
    return [(st, m.term(name, args, kws, st))]


@ext('builtins.ord')
def _ord(m, args, kws, st, n, fr):
    x = args[0]
    if isinstance(x, C):
        try:
            return [(st, C(ord(x.v)))]
        except TypeError:
            m.e.raise_(st.fork(), 'TypeError', (C('ord'),), n, fr)
            return []
    return [(st, App('ord', x))]


@ext('builtins.chr', 'builtins.hex', 'builtins.oct', 'builtins.bin')
def _chr(m, args, kws, st, n, fr):
    import builtins
    name = getattr(getattr(n, 'func', None), 'id', 'chr')
    if isinstance(args[0], C) and hasattr(builtins, name):
        try:
            return [(st, C(getattr(builtins, name)(args[0].v)))]
        except (TypeError, ValueError):
            m.e.raise_(st.fork(), 'TypeError', (C(name),), n, fr)
            return []
    return [(st, App('strop', C(name), m.e.freeze(args[0], st)))]


@ext('builtins.object')
def _object(m, args, kws, st, n, fr):
    return [(st, m.e.fresh('object'))]


@ext('builtins.open', 'pathlib.Path', 'os.path.join')
def _opaque(m, args, kws, st, n, fr):
    name = 'path'
    if args and all(isinstance(a, C) for a in args):
        pass
    t = m.term('ext', [C(name)] + args, kws, st)
    return [(st, t)]


@ext('os.path.exists', 'os.path.isfile', 'os.path.isdir')
def _exists(m, args, kws, st, n, fr):
    return [(s, C(b)) for s, b in m.e.fork_atom(m.term(
        'pathexists', args, kws, st), st)]


@ext('sys.exit', 'builtins.exit', 'builtins.quit')
def _exit(m, args, kws, st, n, fr):
    m.e.raise_(st.fork(), 'SystemExit', tuple(args), n, fr)
    return []


# ================================================================== functools

@ext('functools.partial')
def _partial(m, args, kws, st, n, fr):
    f = args[0]
    if isinstance(f, Partial):
        k = dict(f.k[2])
        k.update(kws)
        return [(st, Partial(f.k[0], tuple(f.k[1]) + tuple(args[1:]),
                             tuple(sorted(k.items()))))]
    return [(st, Partial(f, tuple(args[1:]), tuple(sorted(kws.items()))))]


def combiner(m, f, st, n, fr):
    """The operator a function of two numbers stands for, if any"""
    if isinstance(f, Ext):
        for a, b in (('ior', 'or_'), ('iand', 'and_'), ('ixor', 'xor'),
                     ('iadd', 'add'), ('__or__', 'or_')):
            if f.name == 'operator.' + a:
                return Ext('operator.' + b)
        return f
    a, b = Sym('\0a', ['int']), Sym('\0b', ['int'])
    e = m.e
    saved, e.sink = e.sink, []
    try:
        outs = e.call(f, [a, b], {}, st.fork(), n, fr)
        if len(outs) == 1 and not e.sink:
            for name, op in (('or_', 'BitOr'), ('add', 'Add'),
                             ('xor', 'BitXor'), ('and_', 'BitAnd')):
                for x, y in ((a, b), (b, a)):
                    if any(r == outs[0][1] for _, r in m.binop_vals(
                            op, x, y, outs[0][0].fork(), n, fr)):
                        return Ext('operator.' + name)
    finally:
        e.sink = saved
    return f


@ext('functools.reduce')
def _reduce(m, args, kws, st, n, fr):
    e = m.e
    out = []
    for s, items in e.iterate(args[1], st, n, fr):
        init = args[2] if len(args) > 2 else None
        if any(isinstance(i, Many) for i in items):
            if init is None and all(isinstance(i, Many) for i in items):
                s = e.may_raise(s, ['TypeError'], App('empty', *[
                    Many(i.seq, App('elem', i.seq), i.conds)
                    for i in items]), n, fr)
                if s is None:
                    continue
            f = combiner(m, args[0], s, n, fr)
            out.append((s, App('reduce', e.freeze(f, s), *[
                e.freeze(i, s) for i in
                ([init] if init is not None else []) + items])))
            continue
        if init is None:
            if not items:
                e.raise_(s.fork(), 'TypeError', (C('reduce'),), n, fr)
                continue
            init, items = items[0], items[1:]
        cur = [(s, init)]
        for x in items:
            cur = [r for s2, acc in cur
                   for r in e.call(args[0], [acc, x], {}, s2, n, fr)]
        out.extend(cur)
    return out


@ext('functools.wraps')
def _wraps(m, args, kws, st, n, fr):
    return [(st, Native('identity'))]


@ext('functools.update_wrapper')
def _update_wrapper(m, args, kws, st, n, fr):
    return [(st, args[0])]


@ext('enum.Enum._missing_')
def _enum_missing(m, args, kws, st, n, fr):
    m.e.raise_(st.fork(), 'ValueError', (C('no valid value'),), n, fr)
    return []


@ext('functools.lru_cache')
def _lru_cache(m, args, kws, st, n, fr):
    a = arg(args, kws, 0, 'maxsize', C(128))
    if isinstance(a, (Fn, Bound, SM, CM, Partial, Native)):
        return [(st, Cached(a, C(128)))]
    return [(st, Native('lru', a))]


@ext('functools.cache')
def _cache(m, args, kws, st, n, fr):
    return [(st, Cached(args[0], NONE))]


@ext('enum.auto')
def _auto(m, args, kws, st, n, fr):
    return [(st, App('auto'))]


@ext('typing.cast')
def _cast(m, args, kws, st, n, fr):
    return [(st, args[1])]


@ext('typing.NewType', 'typing.TypeVar')
def _newtype(m, args, kws, st, n, fr):
    return [(st, Native('identity'))]


@ext('collections.namedtuple', 'typing.NamedTuple')
def _namedtuple(m, args, kws, st, n, fr):
    e = m.e
    name = args[0]
    spec = arg(args, kws, 1, 'field_names', arg(args, kws, 1, 'fields'))
    fields = []
    defaults = {}
    s = st.fork()
    if isinstance(spec, C):
        fields = spec.v.replace(',', ' ').split()
    else:
        for s2, items in e.iterate(spec, s, n, fr):
            s = s2
            for it in items:
                if isinstance(it, Tup):
                    it = it.items[0]
                elif isinstance(it, Ref):
                    it = e.o(it, s).data[0]
                fields.append(it.v)
            break
    s = s.fork()
    e.counter += 1
    addr = ('ns', e.counter)
    s.heap[addr] = Obj('ns', None, {'__module__': C(fr.mod),
                                    '__qualname__': name,
                                    '__slots__': Tup()})
    s, c = e.make_class(name.v, name.v, [], addr, fr, None, s)
    e.classes[c.k[0]].ntfields = list(fields)
    return [(s, c)]


@ext('contextlib.suppress')
def _suppress(m, args, kws, st, n, fr):
    return [(st, App('suppress', *args))]


@ext('operator.itemgetter')
def _itemgetter(m, args, kws, st, n, fr):
    return [(st, Native('itemgetter', *args))]


@ext('operator.attrgetter')
def _attrgetter(m, args, kws, st, n, fr):
    return [(st, Native('attrgetter', args[0].v))]


@ext('operator.methodcaller')
def _methodcaller(m, args, kws, st, n, fr):
    return [(st, Native('methodcaller', args[0].v, tuple(args[1:]),
                        tuple(sorted(kws.items()))))]


@ext('operator.not_')
def _not(m, args, kws, st, n, fr):
    return [(s, C(not b)) for s, b in m.e.truth(args[0], st, n, fr)]


@ext('operator.truth')
def _truth(m, args, kws, st, n, fr):
    return [(s, C(b)) for s, b in m.e.truth(args[0], st, n, fr)]


@ext('operator.contains')
def _contains(m, args, kws, st, n, fr):
    return [(s, C(b)) for s, b in m.e.contains(args[0], args[1], st, n, fr)]


@ext('operator.getitem')
def _getitem(m, args, kws, st, n, fr):
    return m.e.getitem(args[0], args[1], st, n, fr)


@ext('itertools.chain')
def _chain(m, args, kws, st, n, fr):
    e = m.e
    live = [(st, [])]
    for a in args:
        live = [(s2, acc + items) for s, acc in live
                for s2, items in e.iterate(a, s, n, fr)]
    out = []
    for s, items in live:
        s = s.fork()
        out.append((s, m.new_gen(s, items)))
    return out


@ext('itertools.chain.from_iterable')
def _chain_from(m, args, kws, st, n, fr):
    e = m.e
    out = []
    for s, items in e.iterate(args[0], st, n, fr):
        for s2, res in m.map_items(items, s, lambda q, v: [
                (q2, list(sub)) for q2, sub in e.iterate(v, q, n, fr)]):
            s2 = s2.fork()
            out.append((s2, m.new_gen(s2, res)))
    return out


@ext('itertools.starmap')
def _starmap(m, args, kws, st, n, fr):
    e = m.e
    out = []
    for s, items in e.iterate(args[1], st, n, fr):
        for s2, res in m.map_items(items, s, lambda q, v: [
                (q3, [r]) for q2, a in e.iterate(v, q, n, fr)
                for q3, r in e.call(args[0], a, {}, q2, n, fr)]):
            s2 = s2.fork()
            out.append((s2, m.new_gen(s2, res)))
    return out


@ext('itertools.islice')
def _islice(m, args, kws, st, n, fr):
    e = m.e
    out = []
    for s, items in e.iterate(args[0], st, n, fr):
        s = s.fork()
        if not any(isinstance(i, Many) for i in items) and all(
                isinstance(a, C) for a in args[1:]):
            items = items[slice(*[a.v for a in args[1:]])]
        out.append((s, m.new_gen(s, items)))
    return out


@ext('copy.copy', 'copy.deepcopy')
def _copy(m, args, kws, st, n, fr):
    e = m.e
    deep = getattr(getattr(n, 'func', None), 'attr',
                   getattr(getattr(n, 'func', None), 'id', '')) == 'deepcopy'
    s = st.fork()
    memo = {}

    def cp(v):
        if isinstance(v, Tup) and deep:
            return Tup(*[cp(x) for x in v.items])
        if isinstance(v, NT) and deep:
            return NT(v.cls, *[cp(x) for x in v.items])
        if isinstance(v, Many) and deep:
            return Many(v.seq, cp(v.val), v.conds)
        if not isinstance(v, Ref):
            return v
        if v.addr in memo:
            return memo[v.addr]
        o = e.o(v, s)
        if o.kind not in ('list', 'dict', 'set', 'inst', 'exc', 'hasher'):
            return v
        r = e.new(s, o)
        memo[v.addr] = r
        if deep:
            data = tuple(cp(x) if isinstance(x, Val) else
                         (x[0], cp(x[1])) for x in o.data)
            attrs = {k: cp(x) if isinstance(x, Val) else x
                     for k, x in o.attrs.items()}
            s.heap[r.addr] = o.but(data=data, attrs=attrs)
        return r
    x = args[0]
    if isinstance(x, Ref):
        o = e.o(x, s)
        if isinstance(o.cls, Cls):
            r = e.cls_lookup(o.cls, '__deepcopy__' if deep else '__copy__',
                             s)
            if r is not None and isinstance(r[1], Fn):
                return e.call(Bound(r[1], x), [e.new_dict(s)] if deep
                              else [], {}, s, n, fr)
        return [(s, cp(x))]
    return [(s, cp(x))]


@ext('importlib.import_module')
def _import_module(m, args, kws, st, n, fr):
    e = m.e
    x = args[0]
    if isinstance(x, C):
        name = x.v
        if name.startswith('.'):
            pkg = args[1].v if len(args) > 1 else fr.mod
            name = pkg + name
        if name in e.mods:
            return [(e.import_module(name, st), Mod(name))]
        return [(st, Ext(name))]
    return [(st, App('module', e.freeze(x, st)))]


@ext('logging.getLogger')
def _getlogger(m, args, kws, st, n, fr):
    return [(st, Native('logger'))]


# ==================================================================== hashing

@ext('hashlib.new')
def _hashnew(m, args, kws, st, n, fr):
    return m.new_hasher(C(args[0].v.replace('-', '_')), args[1:], kws, st, n,
                        fr)


@ext('Crypto.Hash.keccak.new', 'Cryptodome.Hash.keccak.new')
def _keccak_new(m, args, kws, st, n, fr):
    bits = kws.get('digest_bits', C(256))
    return m.new_hasher(C('keccak%s' % bits.v), [], kws, st, n, fr)


@ext('sha3.keccak_256', 'ethereum.utils.sha3', 'ethereum.utils.sha3_256')
def _keccak(m, args, kws, st, n, fr):
    return [(st, App('keccak256', m.e.freeze(args[0], st)))]


def hexbytes(m, x, st, n, fr):
    """Bytes of a hexadecimal text with or without prefix"""
    if isinstance(x, App) and x.op == 'cat' and x.args[0] in (
            C('0x'), C('0X')):
        x = cat(*x.args[1:])
    elif isinstance(x, C) and isinstance(x.v, str) and \
            x.v[:2] in ('0x', '0X'):
        x = C(x.v[2:])
    if isinstance(x, App) and x.op == 'hex':
        return st, x.args[0]
    t = App('hexbytes', m.e.freeze(x, st))
    return m.e.may_raise(st, ['ValueError', 'TypeError'], t, n, fr), t


@ext('eth_utils.keccak', 'eth_utils.crypto.keccak')
def _eth_keccak(m, args, kws, st, n, fr):
    x = arg(args, kws, 0, 'primitive')
    if x is None and 'hexstr' in kws:
        st, x = hexbytes(m, kws['hexstr'], st, n, fr)
    elif x is None and 'text' in kws:
        x = App('encode', C('utf-8'), C('strict'), kws['text'])
    if x is None or st is None:
        return []
    ty = m.e.types_of(x, st)
    if ty is None or ty - {'bytes'}:
        st = m.e.may_raise(st, ['TypeError'], App('primitive', x), n, fr)
        if st is None:
            return []
    return [(st, App('keccak256', m.e.freeze(x, st)))]


@ext('eth_utils.hexstr_if_str', 'eth_utils.conversions.hexstr_if_str')
def _hexstr_if_str(m, args, kws, st, n, fr):
    out = []
    for s, b in m.isinst(args[1], Ext('builtins.str'), st, n, fr):
        if b:
            out.extend(m.e.call(args[0], [], {'hexstr': args[1]}, s, n, fr))
        else:
            out.extend(m.e.call(args[0], [args[1]], {}, s, n, fr))
    return out


@ext('eth_utils.to_checksum_address', 'eth_utils.toChecksumAddress',
     'eth_utils.address.to_checksum_address')
def _checksum(m, args, kws, st, n, fr):
    x = m.e.freeze(args[0], st)
    ty = m.e.types_of(x, st)
    if ty is not None and ty <= {'bytes'}:
        x = App('hex', x)
    elif isinstance(x, App) and x.op == 'cat' and x.args[0] == C('0x'):
        x = cat(*x.args[1:])
    while isinstance(x, App) and x.op in ('lower', 'checksum'):
        x = x.args[-1]
    t = App('checksum', x)
    if not (isinstance(x, App) and x.op == 'hex' and
            m.len_of(x.args[0], st) == C(20)):
        st = m.e.may_raise(st, ['ValueError', 'TypeError'], t, n, fr)
    return [] if st is None else [(st, t)]


@ext('hmac.compare_digest', 'pyelliptic.equals', 'secrets.compare_digest',
     'pyelliptic.hash.equals')
def _equals(m, args, kws, st, n, fr):
    s = st.fork()
    s.event('consteq', m.e.freeze(args[0], s), m.e.freeze(args[1], s),
            m.e.loc(n, fr))
    return [(s2, C(b)) for s2, b in m.e.eq(args[0], args[1], s, n, fr)]


@ext('pyelliptic.hmac_sha256', 'pyelliptic.hash.hmac_sha256')
def _hmac(m, args, kws, st, n, fr):
    k = arg(args, kws, 0, 'k')
    x = arg(args, kws, 1, 'm')
    return [(st, App('hmac', k, x))]


@ext('hmac.new')
def _hmacnew(m, args, kws, st, n, fr):
    e = m.e
    s = st.fork()
    k = arg(args, kws, 0, 'key')
    x = arg(args, kws, 1, 'msg', C(b''))
    d = arg(args, kws, 2, 'digestmod', C('md5'))
    if d not in (C('sha256'), Ext('hash.sha256')):
        return [(s, m.term('hmacother', [k, x, d], {}, s))]
    return [(s, e.new(s, Obj('hasher', Ext('hash.hmac'), {
        'name': C('hmac'), 'data': x, 'key': k})))]


def _hm_digest(self, v, args, kws, st, n, fr):
    o = self.e.o(v, st)
    if o.attrs['name'] == C('hmac'):
        return [(st, App('hmac', o.attrs['key'], o.attrs['data']))]
    return [(st, self.hashed(o.attrs['name'].v, o.attrs['data']))]


Lib.m_hasher_digest = _hm_digest


@ext('pyelliptic.Cipher.gen_IV', 'pyelliptic.cipher.Cipher.gen_IV')
def _gen_iv(m, args, kws, st, n, fr):
    return [(st, m.e.fresh('iv'))]


@ext('os.urandom', 'secrets.token_bytes', 'random.randbytes')
def _urandom(m, args, kws, st, n, fr):
    e = m.e
    e.counter += 1
    return [(st, App('randbytes', e.counter, *args))]


@ext('random.random', 'random.randint', 'random.randrange',
     'random.getrandbits', 'secrets.randbelow', 'secrets.randbits',
     'random.choice', 'random.uniform')
def _random(m, args, kws, st, n, fr):
    return [(st, m.e.fresh('random'))]


@ext('pyelliptic.Cipher', 'pyelliptic.cipher.Cipher')
def _cipher(m, args, kws, st, n, fr):
    key = arg(args, kws, 0, 'key')
    iv = arg(args, kws, 1, 'iv')
    do = arg(args, kws, 2, 'do')
    name = arg(args, kws, 3, 'ciphername', C('aes-256-cbc'))
    return [(st, App('cipher', key, iv, do, name))]


@ext('pyelliptic.Cipher.get_all_cipher')
def _all_cipher(m, args, kws, st, n, fr):
    s = st.fork()
    return [(s, m.e.new_list(s, [C(x) for x in (
        'aes-128-cbc', 'aes-128-ctr', 'aes-256-ctr', 'aes-256-cbc')]))]


@ext('pyelliptic.OpenSSL.get_cipher')
def _get_cipher(m, args, kws, st, n, fr):
    return [(st, App('self', 'cipherinfo', args[0]))]


# ================================================================== coincurve

@ext('coincurve.PrivateKey', 'coincurve.keys.PrivateKey')
def _privatekey(m, args, kws, st, n, fr):
    e = m.e
    x = arg(args, kws, 0, 'secret')
    if x is None or x == NONE:
        return [(st, App('privkey', e.fresh('key')))]
    t = App('privkey', e.freeze(x, st))
    s = e.may_raise(st, ['ValueError', 'TypeError'], t, n, fr)
    return [] if s is None else [(s, t)]


def pub_of(x):
    """The public key object a byte form denotes"""
    if isinstance(x, App) and x.op == 'pubfmt':
        return x.args[1]
    if isinstance(x, App) and x.op == 'cat' and len(x.args) == 2 and \
            x.args[0] == C(b'\x04') and isinstance(x.args[1], App) and \
            x.args[1].op == 'point':
        return x.args[1].args[0]
    return App('pubkeyobj', x)


def pub_bytes(compressed, me):
    if compressed == FALSE:
        return cat(C(b'\x04'), App('point', me))
    return App('pubfmt', compressed, me)


@ext('coincurve.PublicKey', 'coincurve.keys.PublicKey')
def _publickey(m, args, kws, st, n, fr):
    e = m.e
    x = args[0]
    t = pub_of(e.freeze(x, st))
    if t.op != 'pubkeyobj':
        return [(st, t)]
    s = e.may_raise(st, ['ValueError', 'TypeError'], t, n, fr)
    return [] if s is None else [(s, t)]


@ext('coincurve.PublicKey.from_signature_and_message',
     'coincurve.keys.PublicKey.from_signature_and_message')
def _recover(m, args, kws, st, n, fr):
    e = m.e
    sig = arg(args, kws, 0, 'signature')
    msg = arg(args, kws, 1, 'message')
    h = arg(args, kws, 2, 'hasher', Ext('coincurve.sha256'))
    t = App('recover', e.freeze(sig, st), e.freeze(msg, st), h)
    if isinstance(t.args[0], App) and t.args[0].op == 'ecsign' and \
            t.args[0].args[1:] == t.args[1:]:
        return [(st, App('pubkey', t.args[0].args[0]))]
    s = e.may_raise(st, ['Exception'], t, n, fr)
    return [] if s is None else [(s, t)]


def _crypto_method(m, me, name, args, kws, st, n, fr):
    """Methods of coincurve keys and friends; None if unknown"""
    e = m.e
    f = lambda x: e.freeze(x, st)   # noqa
    if name == 'format':
        c = arg(args, kws, 0, 'compressed', TRUE)
        return [(st, pub_bytes(c, me))]
    if name == 'sign_recoverable':
        h = arg(args, kws, 1, 'hasher', Ext('coincurve.sha256'))
        return [(st, App('ecsign', me, f(arg(args, kws, 0, 'message')), h))]
    if name == 'ecdh':
        k = pub_of(f(args[0]))
        if k.op == 'pubkey':
            # both private keys known: the secret is the same either way
            return [(st, App('ecdh', *sorted([me, k.args[0]], key=show)))]
        t = App('ecdh', me, k)
        s = e.may_raise(st, ['ValueError', 'Exception'], t, n, fr)
        return [] if s is None else [(s, t)]
    if name == 'get_blocksize':
        return [(st, C(16))]
    if name == 'verify':
        return [(s, C(b)) for s, b in e.fork_atom(m.term(
            'ecverify', [me] + args, kws, st), st)]
    return None


_CRYPTO_OPS = ('privkey', 'pubkey', 'recover', 'pubkeyobj')
_base_unknown = Lib.call_unknown


def _call_unknown(self, f, args, kws, st, n, fr):
    if isinstance(f, App) and f.op == 'attr' and isinstance(f.args[1], str):
        me, name = f.args
        r = _crypto_method(self, me, name, args, kws, st, n, fr)
        if r is not None:
            return r
        if isinstance(me, App) and me.op in ('version', 'spec'):
            return _semver_method(self, me, name, args, kws, st, n, fr)
    return _base_unknown(self, f, args, kws, st, n, fr)


Lib.call_unknown = _call_unknown


# ======================================================================= eth

@ext('eth_account.account.Account.signHash',
     'eth_account.account.Account.sign_hash')
def _signhash(m, args, kws, st, n, fr):
    f = m.e.freeze
    h = arg(args, kws, 0, 'message_hash')
    k = arg(args, kws, 1, 'private_key')
    t = App('ethsign', f(h, st), f(k, st))
    s = m.e.may_raise(st, ['Exception'], t, n, fr)
    return [] if s is None else [(s, t)]


@ext('eth_account.account.Account.recoverHash',
     'eth_account.account.Account.recover_hash')
def _recoverhash(m, args, kws, st, n, fr):
    f = m.e.freeze
    h = arg(args, kws, 0, 'message_hash')
    v = kws.get('vrs')
    sig = kws.get('signature', args[2] if len(args) > 2 else None)
    if v is None and len(args) > 1:
        v = args[1]
    t = App('ethrecover', f(h, st), f(v, st) if v is not None
            else App('sigbytes', f(sig, st)))
    s = m.e.may_raise(st, ['Exception'], t, n, fr)
    return [] if s is None else [(s, t)]


@ext('eth_account.messages.defunct_hash_message')
def _defunct(m, args, kws, st, n, fr):
    f = m.e.freeze
    t = m.term('ethmsg', args, {k: v for k, v in kws.items()}, st)
    s = m.e.may_raise(st, ['Exception'], t, n, fr)
    return [] if s is None else [(s, t)]


@ext('rlp.utils.str_to_bytes')
def _str_to_bytes(m, args, kws, st, n, fr):
    e = m.e
    x = args[0]
    out = []
    for s, b in m.isinst(x, Ext('builtins.str'), st, n, fr):
        if b:
            out.extend(m.method('str', 'encode', x, [C('utf-8')], {}, s, n,
                                fr))
        else:
            out.append((s, x))
    return out


# ======================================================== bytes, structs, hex

@ext('struct.pack')
def _pack(m, args, kws, st, n, fr):
    from .models import parse_struct
    e = m.e
    fmt = args[0]
    if not isinstance(fmt, C):
        return [(st, m.term('structpack', args, kws, st))]
    codes = parse_struct(fmt.v if isinstance(fmt.v, str)
                         else fmt.v.decode())
    want = [c for c in codes if c[0] != 'pad']
    vals = list(args[1:])
    if any(isinstance(v, Many) for v in vals) or len(vals) != len(want):
        e.raise_(st.fork(), Ext('struct.error'), (C('pack'),), n, fr)
        return []
    parts = []
    i = 0
    for code, en in codes:
        if code == 'pad':
            parts.append(C(b'\0'))
            continue
        v = vals[i]
        i += 1
        t = m.pack1(code, en, v)
        if isinstance(t, App) and t.op == 'pk' and code != 'bool':
            st = e.may_raise(st, [Ext('struct.error')], t, n, fr)
            if st is None:
                return []
        parts.append(t)
    return [(st, cat(*parts) if parts else C(b''))]


@ext('struct.calcsize')
def _calcsize(m, args, kws, st, n, fr):
    return [(st, C(struct.calcsize(args[0].v)))]


@ext('struct.Struct')
def _Struct(m, args, kws, st, n, fr):
    return [(st, Native('struct', args[0].v))]


def _unpack_parts(m, fmt, b, st):
    from .models import parse_struct
    out = []
    pos = 0
    for code, en in parse_struct(fmt):
        if code == 'pad':
            pos += 1
            continue
        size = pk_size(code)
        if size is None:
            return None
        part = m.cut(b, pos, pos + size, st)
        out.append(m.unpack1(code, en, part))
        pos += size
    return out


@ext('struct.unpack', 'struct.unpack_from')
def _unpack(m, args, kws, st, n, fr):
    e = m.e
    fmt, b = args[0], arg(args, kws, 1, 'buffer')
    off = arg(args, kws, 2, 'offset')
    err = Ext('struct.error')
    if not isinstance(fmt, C):
        return [(st, m.term('structunpack', args, kws, st))]
    f = fmt.v if isinstance(fmt.v, str) else fmt.v.decode()
    size = struct.calcsize(f)
    ty = e.types_of(b, st)
    if ty is not None and not ty & {'bytes', 'bytearray', 'other'}:
        e.raise_(st.fork(), 'TypeError', (C('unpack'),), n, fr)
        return []
    if ty is None or ty - {'bytes', 'bytearray'}:
        st = e.may_raise(st, ['TypeError'], App('byteslike', b), n, fr)
        if st is None:
            return []
    frm = getattr(getattr(n, 'func', None), 'attr',
                  'unpack') == 'unpack_from' or off is not None
    if off is not None:
        rs = m.slice(b, off, NONE, NONE, st, n, fr)
        st, b = rs[0]
    ln = e.length(b, st)
    lv = lin_of(ln)
    if lv is None:
        return [(st, m.term('structunpack', args, kws, st))]
    d = (lv[0], lv[1], lv[2] - size)
    good = []
    if frm:
        res = [(s, not x) for s, x in e.lt_zero(d, True, st)]
    else:
        res = e.lin_eq(d, st)
    for s, ok in res:
        if not ok:
            e.raise_(s.fork(), err, (C('unpack'),), n, fr)
            continue
        ps = _unpack_parts(m, f, m.cut(b, 0, size, s)
                           if frm else b, s)
        if ps is None:
            good.append((s, m.term('structunpack', args, kws, s)))
        else:
            good.append((s, Tup(*ps)))
    return good


@ext('binascii.hexlify')
def _hexlify(m, args, kws, st, n, fr):
    x = args[0]
    e = m.e
    if isinstance(x, C) and isinstance(x.v, bytes):
        import binascii
        return [(st, C(binascii.hexlify(x.v)))]
    ty = e.types_of(x, st)
    if ty is not None and not ty & {'bytes', 'bytearray', 'other'}:
        e.raise_(st.fork(), 'TypeError', (C('hexlify'),), n, fr)
        return []
    if ty is None or not ty <= {'bytes', 'bytearray'}:
        st = e.may_raise(st, ['TypeError'], App('byteslike', x), n, fr)
        if st is None:
            return []
    return [(st, App('encode', 'ascii', 'strict', App('hex', x)))]


def unhex(x):
    if isinstance(x, App) and x.op == 'encode':
        x = x.args[2]
    if isinstance(x, App) and x.op == 'hex':
        return x.args[0]
    return None


@ext('binascii.unhexlify', 'builtins.bytes.fromhex',
     'builtins.bytearray.fromhex')
def _unhexlify(m, args, kws, st, n, fr):
    e = m.e
    x = args[0]
    if isinstance(x, C):
        import binascii
        try:
            return [(st, C(binascii.unhexlify(x.v)))]
        except (binascii.Error, ValueError):
            e.raise_(st.fork(), Ext('binascii.Error'), (C('unhex'),), n, fr)
            return []
        except TypeError:
            e.raise_(st.fork(), 'TypeError', (C('unhex'),), n, fr)
            return []
    r = unhex(x)
    if r is not None:
        return [(st, r)]
    if isinstance(x, App) and x.op == 'encode':
        x = x.args[2]
    ty = e.types_of(x, st)
    t = App('unhex', x)
    if ty is None or not ty <= {'bytes', 'bytearray', 'str'}:
        st = e.may_raise(st, ['TypeError'], App('byteslike', x), n, fr)
        if st is None:
            return []
    st = e.may_raise(st, [Ext('binascii.Error'), 'ValueError'], t, n, fr)
    return [] if st is None else [(st, t)]


@ext('builtins.int.from_bytes')
def _from_bytes(m, args, kws, st, n, fr):
    e = m.e
    b = arg(args, kws, 0, 'bytes')
    order = arg(args, kws, 1, 'byteorder', C('big'))
    signed = kws.get('signed', FALSE)
    if isinstance(b, C) and isinstance(order, C) and isinstance(
            b.v, bytes):
        return [(st, C(int.from_bytes(b.v, order.v, signed=bool(
            signed.v))))]
    if isinstance(b, App) and b.op == 'pk':
        from .models import int_code
        size = pk_size(b.args[0])
        if size and isinstance(order, C) and isinstance(signed, C):
            code = int_code(size, signed.v)
            return [(st, m.unpack1(code, '>' if order.v == 'big'
                                   or code == 'u1' else '<', b))]
    ln = m.len_of(b, st)
    if ln is not None and isinstance(order, C) and signed == FALSE and \
            ln in (1, 2, 4, 8):
        from .models import int_code
        return [(st, m.unpack1(int_code(ln), '>' if order.v == 'big'
                               or ln == 1 else '<', b))]
    ty = e.types_of(b, st)
    if ty is None or not ty <= {'bytes', 'bytearray'}:
        st = e.may_raise(st, ['TypeError'], App('byteslike', b), n, fr)
        if st is None:
            return []
    fb = e.freeze(b, st)
    if signed == FALSE:
        return [(st, App('frombytes', order, fb))]
    return [(st, App('frombytes', order, fb, 'signed'))]


@ext('builtins.dict.fromkeys')
def _fromkeys(m, args, kws, st, n, fr):
    e = m.e
    v = args[1] if len(args) > 1 else NONE
    out = []
    for s, items in e.iterate(args[0], st, n, fr):
        s = s.fork()
        data = []
        for it in items:
            if isinstance(it, Many):
                data.append(Many(it.seq, Tup(it.val, v), it.conds))
            elif not any(not isinstance(d, Many) and d[0] == it
                         for d in data):
                data.append((it, v))
        out.append((s, e.new_dict(s, data)))
    return out


# ======================================================================= cbor

@ext('cbor.dumps')
def _cbordumps(m, args, kws, st, n, fr):
    e = m.e
    t = App('cbor', e.freeze(args[0], st))
    s = e.may_raise(st, ['Exception'], t, n, fr)
    return [] if s is None else [(s, t)]


@ext('cbor.loads')
def _cborloads(m, args, kws, st, n, fr):
    e = m.e
    b = args[0]
    if isinstance(b, App) and b.op == 'cbor':
        s = st.fork()
        return [(s, thaw(m, b.args[0], s))]
    fb = e.freeze(b, st)
    t = App('cborload', fb)
    s = e.may_raise(st, ['Exception'], t, n, fr)
    return [] if s is None else [(s, t)]


def thaw(m, t, s):
    """What decoding gives back for an encoded term"""
    e = m.e
    if isinstance(t, (Tup, NT)):
        return e.new_list(s, [thaw(m, x, s) for x in t.items])
    if isinstance(t, App) and t.op == 'list':
        return e.new_list(s, [Many(x.seq, thaw(m, x.val, s), x.conds)
                              if isinstance(x, Many) else thaw(m, x, s)
                              for x in t.args])
    if isinstance(t, App) and t.op in ('dict', 'dictsrc'):
        items = t.args if t.op == 'dict' else t.args[2:]
        data = []
        for x in items:
            if isinstance(x, Many):
                data.append(x)
            else:
                data.append((x.items[0], thaw(m, x.items[1], s)))
        return e.new_dict(s, data, t.args[0] if t.op == 'dictsrc' else None)
    return t


# ======================================================================= time

@ext('time.time')
def _time(m, args, kws, st, n, fr):
    return [(st, m.e.clock)]


@ext('time.time_ns')
def _time_ns(m, args, kws, st, n, fr):
    v = mk_lin('num', {m.e.clock: T(10 ** 9)}, T(0))
    return _int(m, [v], {}, st, n, fr)


@ext('time.monotonic', 'time.perf_counter', 'time.process_time',
     'time.thread_time')
def _othertime(m, args, kws, st, n, fr):
    return [(st, Sym('otherclock', ['float']))]


@ext('time.gmtime')
def _gmtime(m, args, kws, st, n, fr):
    x = args[0] if args and args[0] != NONE else m.e.clock
    if isinstance(x, C):
        return [(st, App('gmtime', x))]
    return [(st, App('gmtime', x))]


def offset(x):
    """The offset of the local time zone at x, it changes with the season"""
    lv = lin_of(x)
    return App('tzoffset', mk_lin('num', dict(lv[1]), lv[2]))


def shifted(x, sign):
    """x seconds moved by the offset of the local time zone"""
    lv = lin_of(x)
    if lv is None or lv[0] != 'num':
        return None
    c = dict(lv[1])
    z = offset(x)
    c[z] = c.get(z, T(0)) + sign
    return mk_lin('num', {k: v for k, v in c.items() if v}, lv[2])


@ext('time.localtime')
def _localtime(m, args, kws, st, n, fr):
    x = args[0] if args and args[0] != NONE else m.e.clock
    y = shifted(x, 1)
    return [(st, App('gmtime', y if y is not None
                     else App('tolocal', m.e.freeze(x, st))))]


@ext('time.mktime')
def _mktime(m, args, kws, st, n, fr):
    x = args[0]
    if isinstance(x, App) and x.op == 'gmtime':
        y = shifted(x.args[0], -1)
        if y is not None:
            return _int(m, [y], {}, st, n, fr)
    return [(st, App('mktime', m.e.freeze(x, st)))]


@ext('calendar.timegm')
def _timegm(m, args, kws, st, n, fr):
    e = m.e
    x = args[0]
    if isinstance(x, App) and x.op == 'gmtime':
        return _int(m, [x.args[0]], {}, st, n, fr)
    if isinstance(x, App) and x.op == 'strptime' and all(
            isinstance(a, C) for a in x.args):
        try:
            return [(st, C(calendar.timegm(time.strptime(
                *[a.v for a in x.args]))))]
        except ValueError:
            e.raise_(st.fork(), 'ValueError', (C('strptime'),), n, fr)
            return []
    return [(st, App('timegm', e.freeze(x, st)))]


@ext('time.strptime')
def _strptime(m, args, kws, st, n, fr):
    return [(st, App('strptime', *args))]


@ext('datetime.datetime.utcnow')
def _utcnow(m, args, kws, st, n, fr):
    return [(st, mk_lin('dt', {m.e.clock: T(1)}, T(0)))]


@ext('datetime.datetime.now')
def _now(m, args, kws, st, n, fr):
    tz = arg(args, kws, 0, 'tz')
    if tz is not None and tz != NONE:
        s = st.fork()
        v = mk_lin('dt', {m.e.clock: T(1)}, T(0))
        s.facts[App('aware', v)] = True
        return [(s, v)]
    return [(st, mk_lin('dt', {m.e.clock: T(1), offset(m.e.clock): T(1)},
                        T(0)))]


def _fromts(local):
    def f(m, args, kws, st, n, fr):
        e = m.e
        x = args[0]
        if isinstance(x, EnumM):
            x = x.value
        tz = arg(args, kws, 1, 'tz', NONE)
        ty = e.types_of(x, st)
        lv = lin_of(x)
        if lv is None or lv[0] != 'num' or (
                ty is not None and not ty & (NUM | {'other'})):
            e.raise_(st.fork(), 'TypeError', (C('fromtimestamp'),), n, fr)
            return []
        if not (isinstance(x, App) and x.op == 'lin') and not is_now(x):
            if ty is None or not ty <= NUM:
                s2 = e.may_raise(st, ['TypeError'], App('arith', x), n, fr)
                if s2 is None:
                    return []
                if s2 is not st:
                    e.refine_ty(s2, x, NUM | {'other'})
                st = s2
        b = e.bounds(lv[1], lv[2], st)
        if not is_now(x) and not isinstance(x, C) and not (
                b[0] is not None and b[0] >= -62135596800 and
                b[2] is not None and b[2] < 253402300800 and
                ty is not None and ty <= NUM):
            st = e.may_raise(st, ['OverflowError', 'ValueError', 'OSError'],
                             App('fromts', x), n, fr)
            if st is None:
                return []
        c = dict(lv[1])
        if local and tz == NONE:
            k = offset(x)
            c[k] = c.get(k, T(0)) + 1
        v = mk_lin('dt', c, lv[2])
        if tz != NONE:
            st = st.fork()
            st.facts[App('aware', v)] = True
        return [(st, v)]
    return f


REG['datetime.datetime.utcfromtimestamp'] = _fromts(False)
REG['datetime.datetime.fromtimestamp'] = _fromts(True)

UNITS = {'days': 86400, 'seconds': 1, 'microseconds': T(1, 10 ** 6),
         'milliseconds': T(1, 1000), 'minutes': 60, 'hours': 3600,
         'weeks': 7 * 86400}


@ext('datetime.timedelta')
def _timedelta(m, args, kws, st, n, fr):
    e = m.e
    vals = dict(zip(('days', 'seconds', 'microseconds', 'milliseconds',
                     'minutes', 'hours', 'weeks'), args))
    vals.update(kws)
    acc = ('td', {}, T(0))
    st2 = m.num_check([v for v in vals.values()], st, n, fr)
    if st2 is None:
        return []
    st = st2
    for k, v in vals.items():
        lv = lin_of(v)
        if lv is None or lv[0] != 'num' or k not in UNITS:
            return [(st, m.term('timedelta', args, kws, st))]
        u = T(UNITS[k])
        acc = lin_add(acc, ('td', {t: c * u for t, c in lv[1].items()},
                            lv[2] * u))
    if acc[1]:
        st = e.may_raise(st, ['OverflowError'], App('timedelta', tuple(
            sorted(acc[1].items(), key=lambda x: show(x[0])))), n, fr)
        if st is None:
            return []
    return [(st, mk_lin(*acc))]


@ext('datetime.datetime', 'datetime.date', 'datetime.datetime.strptime')
def _datetime(m, args, kws, st, n, fr):
    e = m.e
    if len(args) >= 3 and all(isinstance(a, C) for a in args) and not kws:
        try:
            d = datetime.datetime(*[a.v for a in args])
            return [(st, mk_lin('dt', {}, T(calendar.timegm(
                d.timetuple()))))]
        except (TypeError, ValueError):
            pass
    return [(st, m.term('datetime', args, kws, st))]


# ======================================================================= uuid

@ext('uuid.UUID')
def _uuid(m, args, kws, st, n, fr):
    e = m.e
    if 'bytes' in kws or len(args) > 1:
        b = kws.get('bytes', args[1] if len(args) > 1 else None)
        if isinstance(b, App) and b.op == 'uuidbytes':
            return [(st, b.args[0])]
        t = App('uuidfrombytes', e.freeze(b, st))
        if e.is_bytes(b, st) and m.len_of(b, st) == 16:
            return [(st, t)]
        s = e.may_raise(st, ['ValueError', 'TypeError'], t, n, fr)
        return [] if s is None else [(s, t)]
    if 'int' in kws:
        b = kws['int']
        if isinstance(b, App) and b.op == 'frombytes' and \
                b.args[0] == C('big') and len(b.args) == 2 and \
                m.len_of(b.args[1], st) == 16:
            b = b.args[1]
            return [(st, b.args[0] if isinstance(b, App) and
                     b.op == 'uuidbytes' else App('uuidfrombytes', b))]
        return [(st, App('uuid', App('intuuid', kws['int'])))]
    x = args[0] if args else kws.get('hex')
    if isinstance(x, App) and x.op == 'hex' and \
            m.len_of(x.args[0], st) == 16:
        b = x.args[0]
        return [(st, b.args[0] if isinstance(b, App) and
                 b.op == 'uuidbytes' else App('uuidfrombytes', b))]
    if isinstance(x, App) and x.op == 'str' and isinstance(
            x.args[0], App) and x.args[0].op in (
                'uuid', 'uuid1', 'uuid4', 'uuidfrombytes'):
        return [(st, x.args[0])]
    if isinstance(x, C) and isinstance(x.v, str):
        try:
            return [(st, App('uuidfrombytes', C(uuid.UUID(x.v).bytes)))]
        except ValueError:
            e.raise_(st.fork(), 'ValueError',
                     (C('badly formed hexadecimal UUID string'),), n, fr)
            return []
    fx = e.freeze(x, st)
    t = App('uuid', fx)
    ty = e.types_of(x, st)
    if ty is not None and ty == frozenset(['None']):
        e.raise_(st.fork(), 'TypeError', (C('UUID(None)'),), n, fr)
        return []
    if ty is not None and 'str' not in ty and 'other' not in ty and not \
            ty & {'bytes', 'bytearray'}:
        if not isinstance(x, C) or not isinstance(x.v, str):
            if 'None' in ty:
                st = e.may_raise(st, ['TypeError'], t, n, fr)
                if st is None:
                    return []
            e.raise_(st.fork(), 'AttributeError', (C('UUID'),), n, fr)
            return []
    if ty is None or ty - {'str'}:
        bad = ['AttributeError', 'TypeError']
        st = e.may_raise(st, bad, App('uuidarg', fx), n, fr)
        if st is None:
            return []
    st = e.may_raise(st, ['ValueError'], t, n, fr)
    return [] if st is None else [(st, t)]


@ext('uuid.uuid1')
def _uuid1(m, args, kws, st, n, fr):
    e = m.e
    node = arg(args, kws, 0, 'node', NONE)
    e.counter += 1
    t = App('uuid1', e.freeze(node, st), e.counter)
    if node != NONE:
        st = e.may_raise(st, ['ValueError', 'TypeError', 'OverflowError'],
                         App('uuid1', e.freeze(node, st)), n, fr)
    return [] if st is None else [(st, t)]


@ext('uuid.getnode')
def _getnode(m, args, kws, st, n, fr):
    s = st.fork()
    v = App('call', Ext('uuid.getnode'))
    s.ty[v] = frozenset(['int'])
    return [(s, v)]


@ext('uuid.uuid4')
def _uuid4(m, args, kws, st, n, fr):
    e = m.e
    e.counter += 1
    return [(st, App('uuid4', e.counter))]


# ======================================================================= math

@ext('math.ceil', 'math.floor', 'math.trunc')
def _ceil(m, args, kws, st, n, fr):
    e = m.e
    name = getattr(getattr(n, 'func', None), 'attr', None) or getattr(
        getattr(n, 'func', None), 'id', 'ceil')
    x = args[0]
    if isinstance(x, C):
        return [(st, C(getattr(math, name)(x.v)))]
    s2 = m.num_check([x], st, n, fr)
    if s2 is None:
        return []
    st = s2
    if name == 'trunc':
        name = 'int'
    return [(st, App(name, x))]


@ext('math.log', 'math.log2', 'math.log10', 'math.sqrt', 'math.pow',
     'math.exp')
def _mathfn(m, args, kws, st, n, fr):
    e = m.e
    name = getattr(getattr(n, 'func', None), 'attr', None) or getattr(
        getattr(n, 'func', None), 'id', 'log')
    if all(isinstance(a, C) for a in args):
        try:
            return [(st, C(getattr(math, name)(*[a.v for a in args])))]
        except ValueError:
            e.raise_(st.fork(), 'ValueError', (C('math'),), n, fr)
            return []
        except TypeError:
            e.raise_(st.fork(), 'TypeError', (C('math'),), n, fr)
            return []
    s2 = m.num_check(args, st, n, fr)
    if s2 is None:
        return []
    t = App('mathlog', C(name), *args)
    s2 = e.may_raise(s2, ['ValueError'], t, n, fr)
    return [] if s2 is None else [(s2, t)]


@ext('math.isfinite', 'math.isnan', 'math.isinf')
def _isfin(m, args, kws, st, n, fr):
    name = getattr(getattr(n, 'func', None), 'attr', 'isfinite')
    return [(s, C(b)) for s, b in m.e.fork_atom(
        m.term(name, args, kws, st), st)]


@ext('random.sample', 'random.choices')
def _sample(m, args, kws, st, n, fr):
    e = m.e
    x, k = args[0], arg(args, kws, 1, 'k')
    name = getattr(getattr(n, 'func', None), 'attr', 'sample')
    e.counter += 1
    ln = lin_of(e.length(x, st)) if not isinstance(x, C) else None
    f = e.freeze(x, st)
    t = App(name, f, k, e.counter)
    if name == 'sample':
        s = e.may_raise(st, ['ValueError'], App('sample', f, k), n, fr)
    else:
        s = st
    return [] if s is None else [(s, t)]


@ext('random.SystemRandom', 'random.Random')
def _sysrandom(m, args, kws, st, n, fr):
    return [(st, Ext('random'))]


@ext('random.shuffle', 'random.seed')
def _shuffle(m, args, kws, st, n, fr):
    return [(st, NONE)]


# ===================================================================== semver

@ext('semantic_version.Version')
def _version(m, args, kws, st, n, fr):
    e = m.e
    t = App('version', e.freeze(args[0], st) if args else NONE)
    if isinstance(args[0] if args else NONE, Sym) and \
            args[0] == Sym('own_version', ['str']):
        return [(st, t)]
    s = st
    ty = e.types_of(args[0], st) if args else None
    if not args or args[0] == NONE or ty == {'None'}:
        e.raise_(st.fork(), 'ValueError', (C('Version'),), n, fr)
        return []
    if ty is not None and not ty & {'str', 'None', 'other'}:
        # a pattern can only be matched with text
        e.raise_(st.fork(), 'TypeError', (App('verarg', t),), n, fr)
        return []
    if ty is None or ty - {'str'}:
        s = e.may_raise(s, ['TypeError'], App('verarg', t), n, fr)
        if s is None:
            return []
    s = e.may_raise(s, ['ValueError'], t, n, fr)
    return [] if s is None else [(s, t)]


@ext('semantic_version.Spec', 'semantic_version.SimpleSpec',
     'semantic_version.NpmSpec')
def _spec(m, args, kws, st, n, fr):
    t = m.term('spec', args, kws, st)
    if own_only(t):     # the library's own version is well formed
        return [(st, t)]
    s = m.e.may_raise(st, ['ValueError'], t, n, fr)
    return [] if s is None else [(s, t)]


def own_only(t):
    """Does this term depend on the library's own version only?"""
    own = False
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, Sym):
            if x.name != 'own_version':
                return False
            own = True
        elif isinstance(x, App):
            if x.op in ('input', 'obj'):
                return False
            stack.extend(x.args)
        elif isinstance(x, Val):
            stack.extend(x.k)
        elif isinstance(x, (tuple, frozenset)):
            stack.extend(x)
    return own


def _semver_method(m, me, name, args, kws, st, n, fr):
    e = m.e
    if me.op == 'version' and name in (
            'next_major', 'next_minor', 'next_patch') and not args:
        return [(st, App('call', App('attr', me, name)))]
    if name in ('match', 'filter', '__contains__'):
        return [(s, C(b)) for s, b in e.fork_atom(App(
            'in', e.freeze(args[0], st), me), st)]
    return _base_unknown(m, App('attr', me, name), args, kws, st, n, fr)


@ext('ipaddress.ip_address', 'ipaddress.IPv4Address',
     'ipaddress.IPv6Address')
def _ip(m, args, kws, st, n, fr):
    e = m.e
    name = getattr(getattr(n, 'func', None), 'attr', 'ip_address')
    t = App('ip', e.freeze(args[0], st)) if name == 'ip_address' else App(
        'ip', e.freeze(args[0], st), C(name))
    s = e.may_raise(st, ['ValueError'], t, n, fr)
    return [] if s is None else [(s, t)]


@ext('bitcoin.get_privkey_format')
def _privfmt(m, args, kws, st, n, fr):
    t = m.term('privformat', args, kws, st)
    s = m.e.may_raise(st, ['Exception'], t, n, fr)
    return [] if s is None else [(s, t)]

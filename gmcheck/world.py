"""The harness the rules share: finds the public entry points in the current
source, builds abstract inputs for them and asks questions about the abstract
states they end in."""
import ast

from .dom import (
    App, Bound, C, Cls, EnumM, Ext, FALSE, Fn, NONE, NT, Obj, Ref, State, Sym,
    TRUE, Tup, Val, WIRE, cat, lin_add, lin_of, mk_lin, show)
from .engine import AnalysisError, Engine, contains
from . import reference as R
from .report import Fail, Undecided

TS = Sym('TS', ['int'])
FLAG = Sym('FLAG', ['bool'])
SIG = App('input', 'SIG', 65)
PAYLOAD = Sym('PAYLOAD', ['bytes'])
VER = App('input', 'VERSION', 32)
PRIV = App('input', 'PRIVKEY', 32)
PUB = Sym('PUBKEY', ['bytes'])


OPS = {'==': ast.Eq(), '!=': ast.NotEq(), '<': ast.Lt(), '<=': ast.LtE(),
       '>': ast.Gt(), '>=': ast.GtE(), 'is': ast.Is(), 'in': ast.In()}


class World:
    def __init__(self, root='/repo'):
        self.e = Engine(root)
        self.top = None
        self.opaque = {}
        self.nested_ids = {}
        self.e.hook_call = self.hook_call
        self.e.world = self
        self.stops = {}
        self.Message = self.cls('message.base:Message')
        self.Container = self.cls('datastructures:Container')
        self.Header = self.cls('datastructures:MessageHeader')

    # ------------------------------------------------------------ finding
    def cls(self, path):
        v = self.e.find(path) if ':' in path else None
        if not isinstance(v, Cls):
            raise AnalysisError('%s is not a class' % path)
        return v

    def fn(self, path):
        return self.e.find(path)

    def name(self, cls):
        i = self.e.classes[cls.k[0]]
        return i.mod.replace('golem_messages.', '', 1) + ':' + i.qual

    def exc(self, name):
        return self.cls('exceptions:' + name)

    def sub(self, a, b):
        return self.e.exc_sub(a, b)

    def is_message(self, c):
        return isinstance(c, Cls) and self.Message in self.e.mro(c)

    def is_lib_error(self, o):
        """Does this outcome raise an error of the library hierarchy?"""
        return self.sub(o.exc_cls, self.exc('MessageError'))

    def registry(self):
        """{number: Cls} and {Cls: number} as registered at import"""
        e = self.e
        st = e.state()
        lib = e.o(e.mod_attr('register', 'library'), st)
        fwd, bwd = {}, {}
        tabs = [e.o(v, st).data for v in lib.attrs.values()
                if isinstance(v, Ref) and e.o(v, st).kind == 'dict']
        for data in tabs:
            for k, v in data:
                if isinstance(k, C) and isinstance(v, Cls):
                    fwd[k.v] = v
                elif isinstance(k, Cls) and isinstance(v, C):
                    bwd[k] = v.v
        return fwd, bwd

    def kinds(self):
        """(number, reference name, class) of every published kind"""
        return [(n, q, self.cls(q)) for n, q in sorted(R.KINDS.items())]

    def const(self, cls, name):
        """A constant class attribute as abstract value"""
        r = self.e.cls_lookup(cls, name, self.e.state())
        return None if r is None else r[1]

    def sizes(self):
        return {}

    # ------------------------------------------------------- abstract inputs
    def header(self, name, num=None, enc=None):
        return NT(self.Header,
                  C(num) if num is not None else
                  Sym(name + '.type', ['int']),
                  Sym(name + '.ts', ['int']),
                  enc if enc is not None else Sym(name + '.enc', ['bool']))

    def open_msg(self, cls, name, st, num=None, attrs=None, opaque=True,
                 sig=None, enc=None):
        """A message object of a kind about whose fields nothing is known"""
        a = {'header': self.header(name, num, enc),
             'sig': sig if sig is not None else Sym(name + '.sig',
                                                    ['bytes', 'None'])}
        a.update(attrs or {})
        r = self.e.open_inst(cls, name, st, a)
        if opaque:
            self.opaque[r.addr] = cls
        else:
            self.opaque.pop(r.addr, None)
        return r

    def frame(self, num, flag=FLAG, payload=PAYLOAD, sig=SIG, version=None,
              ts=TS):
        parts = [C(num.to_bytes(2, 'big')), App('pk', 'u8', '>', ts),
                 App('pk', 'bool', '>', flag) if not isinstance(flag, C)
                 else C(bytes([flag.v])), sig, payload]
        if version is None and R.KINDS.get(num) == 'message.base:Hello':
            version = VER
        if version is not None:
            parts.append(version)
        return cat(*parts)

    # ------------------------------------------------------------------ runs
    def hook_call(self, e, f, args, kws, st, n, fr):
        if isinstance(f, Bound) and isinstance(f.k[1], Ref) and \
                f.k[1].addr in self.opaque and isinstance(f.k[0], Fn):
            nm = e.funcs[f.k[0].k[0]].qual.rpartition('.')[2]
            if nm == 'slots' and not args and not kws:
                return [(st, App('slots', e.freeze(f.k[1], st)))]
            if nm == 'to_dict' and not args and not kws:
                return [(st, App('plain', e.freeze(f.k[1], st)))]
        if isinstance(f, Bound) and isinstance(f.k[0], Fn) and self.stops:
            nm = e.funcs[f.k[0].k[0]].qual.rpartition('.')[2]
            h = self.stops.get(nm)
            if h is not None:
                r = h(f, args, kws, st, n, fr)
                if r is not None:
                    return r
        if self.top is not None and isinstance(f, Cls) and f != self.top \
                and self.is_message(f):
            vals = dict(zip(('header', 'sig', 'slots'), args))
            vals.update(kws)
            if 'slots' in vals:
                return self.nested(f, vals, st, n, fr)
        if self.top is not None and isinstance(f, Cls) and \
                f != self.top and not args and self.Container in e.mro(f):
            return self.made(f, kws, st, n, fr)
        return None

    def made(self, cls, kws, st, n, fr):
        """Building a container from plain data: by induction (its own rules)
        an object that depends on exactly that data, or a library error."""
        e = self.e
        if list(kws) == ['**']:
            src = e.freeze(kws['**'], st)
        else:
            src = App('dict', *[Tup(C(k), e.freeze(v, st))
                                for k, v in sorted(kws.items())])
        atom = App('madeok', cls, src)
        if st.facts.get(atom) is None:
            for exc in ('FieldError', 'MessageError'):
                e.raise_(st.assume(atom, False), self.exc(exc),
                         (App('exc', 'made', src),), n, fr, origin='made',
                         exact=False)
        st = st.assume(atom, True)
        key = (cls, src)
        name = self.nested_ids.setdefault(
            key, 'made%d' % len(self.nested_ids))
        r = e.open_inst(cls, name, st, {'\0made': src})
        self.opaque[r.addr] = cls
        return [(st, r)]

    def nested(self, cls, vals, st, n, fr):
        """Building a nested message from received parts: by induction an
        object of that kind with these parts, or an error."""
        e = self.e
        key = (cls, e.freeze(vals.get('header', NONE), st),
               e.freeze(vals.get('sig', NONE), st),
               e.freeze(vals['slots'], st))
        known = st.facts.get(App('nestedok', cls, *key[1:]))
        if known is None:
            for exc in (self.exc('FieldError'), 'Exception'):
                e.raise_(st.assume(App('nestedok', cls, *key[1:]), False),
                         exc, (App('exc', 'nested', key[3]),), n, fr,
                         origin='nested', exact=False)
        st = st.assume(App('nestedok', cls, *key[1:]), True)
        name = self.nested_ids.setdefault(
            key, 'nested%d' % len(self.nested_ids))
        r = e.open_inst(cls, name, st, {
            'header': vals.get('header', NONE), 'sig': vals.get('sig', NONE),
            '\0slots': vals['slots']})
        self.opaque[r.addr] = cls
        return [(st, r)]

    def load(self, num, data=None, priv=PRIV, pub=PUB, st=None,
             complete=None, implicit='try', opaque_nested=True, **kw):
        """Every abstract outcome of loading a frame of kind `num`.
        complete: names of the fields present in the payload, all others
        absent (None: nothing known)."""
        cls = self.cls(R.KINDS[num])
        st = st or self.e.state()
        payload = kw.pop('payload', PAYLOAD)
        if data is None:
            data = self.frame(num, payload=payload, **{
                k: kw.pop(k) for k in list(kw)
                if k in ('flag', 'sig', 'version', 'ts')})
        if complete is not None:
            self.wellformed(st, App('cborload', payload),
                            R.FIELDS[R.KINDS[num]], complete)
        self.top = cls if opaque_nested else None
        try:
            return self.e.run(self.fn('shortcuts:load'), [data, priv, pub],
                              kw, st=st, implicit=implicit)
        finally:
            self.top = None

    def wellformed(self, st, src, fields, present):
        """Assume `src` is a list of pairs naming exactly these fields"""
        for exc in ('TypeError', 'ValueError'):
            st.facts[App('raises', self.e.exc_class(exc),
                         App('mapping', src))] = False
        if src.op == 'cborload':
            st.facts[App('raises', self.e.exc_class('Exception'), src)] = \
                False
        for f in fields:
            st.facts[App('has', src, C(f))] = f in present

    def build(self, num, src=None, present=(), st=None, header=None,
              sig=SIG, implicit='try', **kw):
        """Every outcome of making a message object of a kind from received
        parts (header, signature, list of named values)."""
        q = R.KINDS[num]
        cls = self.cls(q)
        st = st or self.e.state()
        src = src if src is not None else Sym('WIRE', ['list'])
        if not isinstance(src, Ref):
            for exc in ('TypeError', 'ValueError'):
                st.facts[App('raises', self.e.exc_class(exc),
                             App('mapping', src))] = False
            for f in R.FIELDS[q]:
                st.facts[App('has', src, C(f))] = f in present
        if header is None:
            header = self.header('H', num)
        self.top = cls
        try:
            return self.e.run(cls, [], dict(
                header=header, sig=sig, slots=src, **kw), st=st,
                implicit=implicit)
        finally:
            self.top = None

    def run(self, f, args=(), kws=None, st=None, implicit='try'):
        if isinstance(f, str):
            f = self.fn(f)
        return self.e.run(f, args, kws, st=st, implicit=implicit)

    def call(self, obj, name, args=(), kws=None, st=None, implicit='try'):
        return self.e.run_attr(obj, name, args, kws, st=st,
                               implicit=implicit)

    def attr(self, obj, name, st):
        """Value of an attribute: [(state, value)] or raises Fail"""
        out = []
        for o in self.e.read(obj, name, st):
            if not o.ok:
                raise Fail('reading %s raises %s' % (name, o))
            out.append((o.st, o.val))
        return out

    def set(self, obj, name, v, st):
        """States after assigning an attribute"""
        return [o.st for o in self.e.run(
            Ext('builtins.setattr'), [obj, C(name), v], st=st) if o.ok]

    def val(self, obj, name, st):
        """The value of an attribute when there is exactly one, frozen"""
        vals = {self.e.freeze(v, s) for s, v in self.attr(obj, name, st)}
        if len(vals) != 1:
            raise Undecided('several values for %s' % name)
        return vals.pop()

    # ------------------------------------------------------------- questions
    def ask(self, st, op, a, b):
        """Truth values the comparison `a op b` can still have in st"""
        outs = set()
        e = self.e
        saved, e.sink = e.sink, []
        try:
            for s, v in e.compare(OPS[op], a, b, st.fork(), None, None):
                outs.add(v)
        finally:
            e.sink = saved
        return outs

    def proves(self, st, op, a, b):
        return self.ask(st, op, a, b) == {True}

    def refutes(self, st, op, a, b):
        return self.ask(st, op, a, b) == {False}

    def truthy(self, st, v):
        e = self.e
        saved, e.sink = e.sink, []
        try:
            return {t for _, t in e.truth(v, st.fork())}
        finally:
            e.sink = saved

    def describe(self, o, limit=900):
        facts = '; '.join('%s%s' % ('' if v is True else
                                    'not ' if v is False else show(v) + '=',
                                    show(k))
                          for k, v in o.st.facts.items())
        return '%s under [%s]' % (str(o)[:600], facts[:limit])

    def topped(self, o):
        """Did the analysis lose precision on this path?"""
        def has_top(v):
            if isinstance(v, App) and v.op == 'top':
                return True
            if isinstance(v, Val):
                return any(has_top(a) for a in v.k)
            if isinstance(v, (tuple, frozenset)):
                return any(has_top(a) for a in v)
            return False
        if o.ok and has_top(o.frozen()):
            return True
        return any(has_top(k) for k in o.st.facts)

    def fail(self, o, why):
        """Report path `o` as violating, unless the analysis lost track"""
        if self.topped(o):
            raise Undecided('%s (imprecise path)' % why)
        f = Fail('%s: %s' % (why, self.describe(o)), o.where)
        f.path = True
        raise f

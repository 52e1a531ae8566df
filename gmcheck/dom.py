"""Abstract values, abstract heap objects and abstract states.

The value domain is a provenance (value numbering) domain: a value the
analysis knows is a constant, a table object of the program (class, function,
enum member) or a reference into the abstract heap; anything else is a term
that records which operation produced it from which inputs.  On top of it the
state keeps a type-set domain and an interval domain over linear forms.
"""
import datetime
from fractions import Fraction


class Val:
    __slots__ = ('k', '_h')

    def __init__(self, *k):
        self.k = k
        self._h = hash((self.__class__.__name__, k))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        if self is o:
            return True
        if self.__class__ is not o.__class__ or self._h != o._h:
            return False
        if self.k is o.k:
            return True
        if self.k == o.k:
            o.k = self.k       # the next comparison is shorter
            return True
        return False

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return show(self)


class C(Val):
    """A constant (immutable Python scalar)."""
    __slots__ = ()

    def __init__(self, v):
        super().__init__(type(v).__name__, v)

    @property
    def v(self):
        return self.k[1]


class Sym(Val):
    """An unknown input; `types` bounds what it can be."""
    __slots__ = ()

    def __init__(self, name, types=None):
        super().__init__(name, frozenset(types) if types is not None else None)

    @property
    def name(self):
        return self.k[0]

    @property
    def types(self):
        return self.k[1]


class App(Val):
    """Result of an operation on values."""
    __slots__ = ()

    @property
    def op(self):
        return self.k[0]

    @property
    def args(self):
        return self.k[1:]


class Tup(Val):
    __slots__ = ()

    @property
    def items(self):
        return self.k


class NT(Val):
    """A named tuple instance: class, then fields."""
    __slots__ = ()

    @property
    def cls(self):
        return self.k[0]

    @property
    def items(self):
        return self.k[1:]


class Ref(Val):
    __slots__ = ()

    @property
    def addr(self):
        return self.k[0]


class Cls(Val):
    """A class of the repository (index into Engine.classes)."""
    __slots__ = ()


class Fn(Val):
    """A function of the repository: (function id, closure frame, defaults)"""
    __slots__ = ()


class Bound(Val):
    __slots__ = ()


class Partial(Val):
    """(callable, args, ((kw, value), ...))"""
    __slots__ = ()


class Mod(Val):
    __slots__ = ()


class Ext(Val):
    """Something from outside the repository, by dotted name."""
    __slots__ = ()

    @property
    def name(self):
        return self.k[0]


class EnumM(Val):
    """(class, name, value)"""
    __slots__ = ()

    @property
    def value(self):
        return self.k[2]


class Prop(Val):
    """(getter, setter)"""
    __slots__ = ()


class CM(Val):
    __slots__ = ()


class SM(Val):
    __slots__ = ()


class Super(Val):
    """(class after which lookup starts, object or class)"""
    __slots__ = ()


class Cached(Val):
    """(function, maxsize): functools.lru_cache"""
    __slots__ = ()


class Native(Val):
    """A callable modelled by the analysis: (name, payload...)"""
    __slots__ = ()


class Phi(Val):
    """One of several values, merged."""
    __slots__ = ()

    @property
    def alts(self):
        return self.k[0]


class Many(Val):
    """For every element of `seq` (satisfying conds): `val`"""
    __slots__ = ()

    @property
    def seq(self):
        return self.k[0]

    @property
    def val(self):
        return self.k[1]

    @property
    def conds(self):
        return self.k[2]


NONE, TRUE, FALSE = C(None), C(True), C(False)
NOW = Sym('now', ['float'])


def clock(i):
    """The time at the i-th step of a history"""
    return Sym('now%d' % i, ['float'])


def is_now(x):
    return isinstance(x, Sym) and x.k[0].startswith('now')



UNIVERSE = frozenset(('None', 'bool', 'int', 'float', 'str', 'bytes',
                      'bytearray', 'list', 'tuple', 'dict', 'set', 'other'))
NUM = frozenset(('bool', 'int', 'float'))
SIZED = frozenset(('str', 'bytes', 'bytearray', 'list', 'tuple', 'dict',
                   'set'))
# what cbor can decode to
WIRE = frozenset(('None', 'bool', 'int', 'float', 'str', 'bytes', 'list',
                  'dict', 'other'))


def show(v, depth=0):
    if depth > 6:
        return '..'
    d = depth + 1
    if isinstance(v, C):
        return repr(v.v)
    if isinstance(v, Sym):
        return v.name
    if isinstance(v, App):
        if v.op in ('eq', 'lt') and len(v.args) == 2:
            return '(%s %s %s)' % (
                show(v.args[0], d), {'eq': '==', 'lt': '<'}[v.op],
                show(v.args[1], d))
        return '%s(%s)' % (v.op, ', '.join(show(a, d) for a in v.args))
    if isinstance(v, Tup):
        return '(%s)' % ', '.join(show(a, d) for a in v.items)
    if isinstance(v, NT):
        return '%s(%s)' % (show(v.cls), ', '.join(show(a, d)
                                                  for a in v.items))
    if isinstance(v, EnumM):
        return '%s.%s' % (show(v.k[0], d), v.k[1])
    if isinstance(v, Val):
        return '%s<%s>' % (v.__class__.__name__,
                           ', '.join(show(a, d) for a in v.k))
    if isinstance(v, (tuple, frozenset)):
        return '[%s]' % ', '.join(show(a, d) for a in v)
    return str(v)


class Obj:
    """An abstract heap object.

    kind: 'inst', 'list', 'dict', 'set', 'frame', 'ns' (class namespace),
          'hasher', 'gen', 'exc'
    cls:  Cls or Ext
    attrs: name -> Val
    data:  list/set: tuple of Val (Many for the unbounded part)
           dict: tuple of (key Val, value Val), Many(seq, Tup(k, v), conds)
    src:   for dicts whose content is (partly) unknown: the unknown value;
           for open instances: the name used for lazily made attributes
    gone:  keys known to be absent from src
    """
    __slots__ = ('kind', 'cls', 'attrs', 'data', 'src', 'gone')

    def __init__(self, kind, cls=None, attrs=None, data=(), src=None,
                 gone=frozenset()):
        self.kind, self.cls = kind, cls
        self.attrs = attrs if attrs is not None else {}
        self.data, self.src, self.gone = data, src, gone

    def but(self, **kw):
        o = Obj(self.kind, self.cls, self.attrs, self.data, self.src,
                self.gone)
        for k, v in kw.items():
            setattr(o, k, v)
        return o

    def with_attr(self, name, val):
        a = dict(self.attrs)
        a[name] = val
        return self.but(attrs=a)

    def same(self, o):
        return self is o or (
            self.kind == o.kind and self.cls == o.cls
            and self.attrs == o.attrs and self.data == o.data
            and self.src == o.src and self.gone == o.gone)


class State:
    __slots__ = ('heap', 'facts', 'ty', 'iv', 'ev')

    def __init__(self, heap=None, facts=None, ty=None, iv=None, ev=()):
        self.heap = heap if heap is not None else {}
        self.facts = facts if facts is not None else {}
        self.ty = ty if ty is not None else {}
        self.iv = iv if iv is not None else {}
        self.ev = ev

    def fork(self):
        return State(dict(self.heap), dict(self.facts), dict(self.ty),
                     dict(self.iv), self.ev)

    def assume(self, atom, val):
        s = self.fork()
        s.facts[atom] = val
        return s

    def event(self, *e):
        self.ev = self.ev + (e,)


# ---------------------------------------------------------------- linear forms

def lin_of(v):
    """(kind, {term: coef}, const) for a number-like value, else None.
    kinds: num (plain number), td (timedelta, seconds), dt (naive utc)"""
    if isinstance(v, C):
        x = v.v
        if isinstance(x, bool):
            return ('num', {}, Fraction(int(x)))
        if isinstance(x, int):
            return ('num', {}, Fraction(x))
        if isinstance(x, float):
            if x != x or x in (float('inf'), float('-inf')):
                return None
            return ('num', {}, Fraction(x))
        if isinstance(x, datetime.timedelta):
            return ('td', {}, Fraction(x.days * 86400 + x.seconds)
                    + Fraction(x.microseconds, 10 ** 6))
        return None
    if isinstance(v, App) and v.op == 'lin':
        return (v.args[0], dict(v.args[1]), v.args[2])
    if isinstance(v, (Sym, App)):
        return ('num', {v: Fraction(1)}, Fraction(0))
    return None


def mk_lin(kind, coefs, const):
    coefs = {t: c for t, c in coefs.items() if c}
    if not coefs:
        if kind == 'num':
            return C(int(const) if const.denominator == 1 else float(const))
        if kind == 'td':
            return C(datetime.timedelta(
                microseconds=float(const * 10 ** 6)))
    if kind == 'num' and const == 0 and len(coefs) == 1:
        (t, c), = coefs.items()
        if c == 1:
            return t
    return App('lin', kind,
               tuple(sorted(coefs.items(), key=lambda x: show(x[0]))), const)


def lin_add(a, b, sign=1):
    ka, ca, na = a
    kb, cb, nb = b
    if sign == 1:
        kind = {('num', 'num'): 'num', ('td', 'td'): 'td',
                ('dt', 'td'): 'dt', ('td', 'dt'): 'dt'}.get((ka, kb))
    else:
        kind = {('num', 'num'): 'num', ('td', 'td'): 'td',
                ('dt', 'td'): 'dt', ('dt', 'dt'): 'td'}.get((ka, kb))
    if kind is None:
        return None
    c = dict(ca)
    for t, x in cb.items():
        c[t] = c.get(t, Fraction(0)) + sign * x
    return kind, {t: x for t, x in c.items() if x}, na + sign * nb


def lin_scale(a, k):
    kind, c, n = a
    if kind == 'dt':
        return None
    return kind, {t: x * k for t, x in c.items() if k}, n * k


def vec_of(coefs):
    """Normalise a coefficient map: (vector, scale) with vector's first
    coefficient 1; coefs == scale * vector"""
    items = sorted(coefs.items(), key=lambda x: show(x[0]))
    scale = items[0][1]
    return tuple((t, c / scale) for t, c in items), scale


# ------------------------------------------------------------- bytes and texts

PK_SIZE = {'u1': 1, 'u2': 2, 'u4': 4, 'u8': 8, 'bool': 1}
STRUCT = {'B': 'u1', 'H': 'u2', 'I': 'u4', 'L': 'u4', 'Q': 'u8', '?': 'bool'}


def pk_size(code):
    if code in PK_SIZE:
        return PK_SIZE[code]
    if code[0] in 'us' and code[1:].isdigit():
        return int(code[1:])
    if code[-1] in 'ps' and code[:-1].isdigit():
        return int(code[:-1])
    return None


FIXED_LEN = {'sha1': 20, 'sha256': 32, 'uuidbytes': 16}


def cat(*parts):
    flat = []
    for p in parts:
        if isinstance(p, App) and p.op == 'cat':
            flat.extend(p.args)
        else:
            flat.append(p)
    out = []
    for p in flat:
        if isinstance(p, C) and p.v in (b'', '') \
                and not isinstance(p.v, int):
            continue
        if out and isinstance(p, C) and isinstance(out[-1], C) \
                and type(p.v) is type(out[-1].v):
            out[-1] = C(out[-1].v + p.v)
            continue
        if out and isinstance(p, App) and p.op == 'slc' \
                and isinstance(out[-1], App) and out[-1].op == 'slc' \
                and p.args[0] == out[-1].args[0] \
                and p.args[1] == out[-1].args[2]:
            out[-1] = mk_slc(p.args[0], out[-1].args[1], p.args[2])
            continue
        out.append(p)
    if not out:
        for p in flat:
            if isinstance(p, C):
                return p
        return C(b'')
    if len(out) == 1:
        return out[0]
    return App('cat', *out)


def mk_slc(base, lo, hi):
    if lo == ('s', 0) and hi == ('e', 0):
        return base
    return App('slc', base, lo, hi)


def E(*a):
    """shorthand used by the rules"""
    return App(*a)

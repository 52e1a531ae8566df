"""What the analysis knows about Python's builtins and the libraries used.

Every entry is a transfer function from abstract arguments to abstract
results.  Anything not listed becomes an opaque term naming the call and its
arguments, which may raise.
"""
import ast
import binascii
import calendar
import datetime
import operator
import string
import struct
import time
import uuid
from fractions import Fraction

from .dom import (
    App, Bound, C, CM, Cached, Cls, EnumM, Ext, FALSE, FIXED_LEN, Fn, Many,
    Mod, NONE, NOW, NT, NUM, Native, Obj, Partial, Phi, Prop, Ref, SIZED, SM,
    STRUCT, Super, Sym, TRUE, Tup, UNIVERSE, WIRE, Val, cat, lin_add, lin_of,
    lin_scale, mk_lin, mk_slc, pk_size, show)

from . import lib

EXT_EXC = {
    'struct.error': struct.error,
    'binascii.Error': binascii.Error,
}
EXT_EXC_BASE = {
    'struct.error': 'Exception',
    'binascii.Error': 'ValueError',
    'cbor.CBORError': 'Exception',
    'eth_keys.exceptions.BadSignature': 'Exception',
}
ALIASES = {
    'builtins.EnvironmentError': Ext('builtins.OSError'),
    'builtins.IOError': Ext('builtins.OSError'),
    'socket.error': Ext('builtins.OSError'),
    'datetime.UTC': Ext('datetime.timezone.utc'),
    'binascii.b2a_hex': Ext('binascii.hexlify'),
    'binascii.a2b_hex': Ext('binascii.unhexlify'),
    '_pysha3.sha3_256': Ext('hash.sha3_256'),
    'hashlib.sha1': Ext('hash.sha1'),
    'hashlib.sha256': Ext('hash.sha256'),
    'hashlib.sha512': Ext('hash.sha512'),
    'hashlib.md5': Ext('hash.md5'),
    'hashlib.sha3_256': Ext('hash.sha3_256'),
    'cbor2.dumps': Ext('cbor.dumps'),
    'cbor2.loads': Ext('cbor.loads'),
    'eth_account.Account': Ext('eth_account.account.Account'),
}
PYT = {'str': str, 'bytes': bytes, 'bytearray': bytearray, 'int': int,
       'float': float, 'bool': bool, 'list': list, 'tuple': tuple,
       'dict': dict, 'set': set, 'None': type(None)}
DICT_METHODS = frozenset(n for n in dir(dict))
PYOPS = {
    'Add': operator.add, 'Sub': operator.sub, 'Mult': operator.mul,
    'Div': operator.truediv, 'FloorDiv': operator.floordiv,
    'Mod': operator.mod, 'Pow': operator.pow, 'LShift': operator.lshift,
    'RShift': operator.rshift, 'BitOr': operator.or_,
    'BitAnd': operator.and_, 'BitXor': operator.xor,
    'MatMult': operator.matmul,
}
OPFN = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mult', 'truediv': 'Div',
        'floordiv': 'FloorDiv', 'mod': 'Mod', 'pow': 'Pow',
        'lshift': 'LShift', 'rshift': 'RShift', 'or_': 'BitOr',
        'ior': 'BitOr', 'and_': 'BitAnd', 'iand': 'BitAnd',
        'xor': 'BitXor', 'ixor': 'BitXor', 'iadd': 'Add', 'isub': 'Sub',
        'concat': 'Add'}
CMPFN = {'eq': ast.Eq, 'ne': ast.NotEq, 'lt': ast.Lt, 'le': ast.LtE,
         'gt': ast.Gt, 'ge': ast.GtE, 'is_': ast.Is, 'is_not': ast.IsNot}
ANYEXC = ('Exception',)

T_INT = frozenset(['int'])
T_STR = frozenset(['str'])
T_BYTES = frozenset(['bytes'])
T_BOOL = frozenset(['bool'])
T_OTHER = frozenset(['other'])
OP_TYPES = {
    'len': T_INT, 'int': T_INT, 'ceil': T_INT, 'floor': T_INT, 'idx': T_INT,
    'uuidnode': T_INT, 'frombytes': T_INT, 'shl': T_INT, 'bitor': T_INT,
    'bitand': T_INT, 'bitxor': T_INT, 'ord': T_INT, 'hash': T_INT,
    'bitlen': T_INT,
    'str': T_STR, 'repr': T_STR, 'fmt': T_STR, 'hex': T_STR,
    'decode': T_STR, 'excstr': T_STR, 'strop': T_STR, 'bytesop': T_BYTES, 'join': T_STR,
    'checksum': T_STR, 'typename': T_STR, 'ethrecover': T_STR,
    'pk': T_BYTES, 'sha1': T_BYTES, 'sha256': T_BYTES, 'sha512': T_BYTES,
    'md5': T_BYTES, 'sha3_256': T_BYTES, 'keccak256': T_BYTES,
    'keccak': T_BYTES,
    'encode': T_BYTES, 'unhex': T_BYTES, 'cbor': T_BYTES, 'crypt': T_BYTES,
    'hmac': T_BYTES, 'ecsign': T_BYTES, 'pubfmt': T_BYTES, 'point': T_BYTES, 'ecdh': T_BYTES,
    'uuidbytes': T_BYTES, 'tobytes': T_BYTES, 'iv': T_BYTES,
    'secret': T_BYTES, 'byteslike': T_BYTES, 'ethmsg': T_BYTES,
    'randbytes': T_BYTES, 'bytesof': T_BYTES, 'input': T_BYTES,
    'uuid': T_OTHER, 'uuid1': T_OTHER, 'version': T_OTHER, 'spec': T_OTHER,
    'privkey': T_OTHER, 'pubkey': T_OTHER, 'recover': T_OTHER,
    'pubkeyobj': T_OTHER, 'cipher': T_OTHER, 'ip': T_OTHER,
    'gmtime': T_OTHER, 'class': T_OTHER, 'localdt': T_OTHER,
    'uuidfrombytes': T_OTHER, 'object': T_OTHER, 'enum': None,
    'list': frozenset(['list']), 'dict': frozenset(['dict']),
    'dictsrc': frozenset(['dict']), 'set': frozenset(['set']),
    'setor': frozenset(['set']), 'setminus': frozenset(['set']),
    'setand': frozenset(['set']), 'setxor': frozenset(['set']),
    'setof': frozenset(['set']), 'sample': frozenset(['list']),
    'ints': frozenset(['list']),
    'sorted': frozenset(['list']),
    'split': frozenset(['list']), 'slice': T_OTHER, 'obj': T_OTHER,
    'inst': T_OTHER, 'excobj': T_OTHER, 'hasher': T_OTHER,
    'cborload': WIRE, 'plain': frozenset(['dict']),
    'slots': frozenset(['list']), 'random': frozenset(['float']),
    'mathlog': frozenset(['float']), 'float': frozenset(['float']),
    'ethsign': frozenset(['dict']), 'enumitem': T_OTHER,
    'suppress': T_OTHER, 'gen': T_OTHER, 'cacheinfo': T_OTHER,
    'eq': T_BOOL, 'lt': T_BOOL, 'in': T_BOOL, 'truth': T_BOOL,
    'forall': T_BOOL,
}
ASCII = ('ascii', 'utf-8', 'latin-1')


def codec(v):
    if isinstance(v, C) and isinstance(v.v, str):
        n = v.v.lower().replace('_', '-')
        return {'utf8': 'utf-8', 'us-ascii': 'ascii',
                'iso-8859-1': 'latin-1', 'latin1': 'latin-1'}.get(n, n)
    return v if v is not None else 'utf-8'


def parse_struct(fmt):
    """[(code, endian)] or None"""
    endian = '@'
    f = fmt
    if f and f[0] in '@=<>!':
        endian = {'!': '>', '=': '<', '@': '@'}.get(f[0], f[0])
        f = f[1:]
    out = []
    num = ''
    for ch in f:
        if ch.isspace():
            continue
        if ch.isdigit():
            num += ch
            continue
        if ch in 'sp':
            out.append((num + ch if num else '1' + ch, ''))
        elif ch == 'x':
            out.extend([('pad', '')] * int(num or 1))
        else:
            code = STRUCT.get(ch, 'fmt' + ch)
            if endian == '@' and ch in 'Ll':
                code = 'fmt@' + ch
            e = endian if endian != '@' else '<'
            if code in ('u1', 'bool'):
                e = '>'
            out.extend([(code, e)] * int(num or 1))
        num = ''
    return out


def int_code(size, signed=False):
    if size == 1 and not signed:
        return 'u1'
    return ('s' if signed else 'u') + str(size)


lib.OPFN.update(OPFN)
lib.CMPFN.update(CMPFN)
lib.PYOPS.update(PYOPS)


# not equal for different arguments (as far as anyone will see)
COLLISION_FREE = frozenset((
    'hex', 'unhex', 'privkey', 'pubkey', 'pubkeyobj', 'point', 'ecdh', 'sha1',
    'sha256', 'sha3_256', 'keccak256', 'md5', 'hmac', 'ecsign', 'cbor',
    'checksum', 'crypt', 'pk', 'list', 'dict'))
INJECTIVE = ('hex', 'privkey', 'pubkey', 'point')


def _occurs(x, y):
    stack = [y]
    while stack:
        t = stack.pop()
        if t == x:
            return True
        if isinstance(t, Val):
            stack.extend(t.k)
        elif isinstance(t, (tuple, frozenset)):
            stack.extend(t)
    return False


class Models(lib.Lib):
    def __init__(self, eng):
        self.e = eng

    # ----------------------------------------------------------- type facts
    def result_types(self, v, st):
        op = v.op
        if op == 'lin':
            if v.args[0] != 'num':
                return T_OTHER
            if v.args[2].denominator == 1 and all(
                    self.e.intlike(t, st) and c.denominator == 1
                    for t, c in v.args[1]):
                return T_INT
            return frozenset(['int', 'float'])
        if op == 'upk':
            c = v.args[0]
            if c == 'bool':
                return T_BOOL
            if c[-1] in 'sp' and c[:-1].isdigit():
                return T_BYTES
            return T_INT
        if op == 'cat':
            for p in v.args:
                t = self.e.types_of(p, st)
                if t is not None and len(t) == 1:
                    return t
            return None
        if op == 'enum':
            return frozenset(['str', 'other'] if self.e.enum_is_str(
                v.args[0]) else ['other'])
        if op == 'slc':
            return self.e.types_of(v.args[0], st)
        if op == 'item' and isinstance(v.args[0], App) and \
                v.args[0].op == 'ethsign' and isinstance(v.args[1], C):
            return T_INT if v.args[1].v in ('v', 'r', 's') else T_BYTES
        if op in ('item', 'elem', 'lookup', 'first'):
            if self.is_wire(v):
                return WIRE
            if op == 'elem':
                ts = self.elem_types(v.args[0], st)
                if ts is not None:
                    return ts
                if self.e.types_of(v.args[0], st) in (
                        T_BYTES, frozenset(['bytearray'])):
                    return T_INT
            r = v
            while isinstance(r, App) and r.op in ('item', 'elem', 'lookup',
                                                  'minus', 'first'):
                r = r.args[0]
            if op == 'elem' and isinstance(r, App) and r.op == 'set':
                ts = [self.e.types_of(x, st) for x in r.args[0]]
                if ts and all(t is not None for t in ts):
                    return frozenset().union(*ts)
            return None
        if op == 'reduce':
            if isinstance(v.args[0], Ext) and v.args[0].name in (
                    'operator.or_', 'operator.and_', 'operator.add',
                    'operator.xor') and all(
                        self.e.types_of(a.val if isinstance(a, Many) else a,
                                        st) == T_INT for a in v.args[1:]):
                return T_INT
            return None
        if op == 'sum':
            return T_INT if all(self.e.types_of(
                a.val if isinstance(a, Many) else a, st) == T_INT
                for a in v.args) else None
        if op == 'inv':
            return T_INT if self.e.intlike(v.args[0], st) else None
        if op == 'mul':
            if all(self.e.intlike(a, st) for a in v.args):
                return T_INT
            return frozenset(['int', 'float'])
        if op in ('floordiv', 'mod', 'rshift'):
            if all(self.e.intlike(a, st) for a in v.args):
                return T_INT
            return None
        if op in ('neg', 'abs'):
            return self.e.types_of(v.args[0], st)
        if op == 'div':
            return frozenset(['float'])
        if op == 'fresh':
            return {'iv': T_BYTES, 'key': T_BYTES, 'ecckey': T_BYTES,
                    'float': frozenset(['float'])}.get(v.args[1])
        if op == 'fold' and isinstance(v.args[1], C):
            return self.e.types_of(v.args[1], st)
        if op == 'acc':
            return None
        if op == 'phi' and len(v.args) == 1 and isinstance(v.args[0],
                                                           frozenset):
            return None
        return OP_TYPES.get(op)

    def elem_types(self, q, st):
        """The types of the elements of a collection, or None"""
        if not isinstance(q, App):
            return None
        if q.op == 'ints':
            return T_INT
        if q.op in ('set', 'list'):
            ts = []
            for x in (q.args[0] if q.op == 'set' else q.args):
                ts.append(self.e.types_of(x.val if isinstance(x, Many)
                                          else x, st))
            if ts and all(t is not None for t in ts):
                return frozenset().union(*ts)
            return None
        if q.op in ('setof', 'setminus', 'sample', 'choices', 'sorted'):
            return self.elem_types(q.args[0], st)
        if q.op in ('setor', 'setxor'):
            ts = [self.elem_types(x, st) for x in q.args]
            if all(t is not None for t in ts):
                return frozenset().union(*ts)
            return None
        if q.op == 'setand':
            for x in q.args:
                t = self.elem_types(x, st)
                if t is not None:
                    return t
        return None

    def is_wire(self, r):
        """Is r a part of decoded content?"""
        while isinstance(r, App) and r.op in ('item', 'elem', 'lookup',
                                              'minus', 'first'):
            r = r.args[0]
        return isinstance(r, App) and r.op == 'cborload' or \
            isinstance(r, Sym) and r.name.startswith('wire')

    def solid(self, v, st):
        if isinstance(v, App):
            if v.op in ('uuid', 'uuid1', 'privkey', 'pubkey', 'recover',
                        'pubkeyobj', 'cipher', 'ip', 'class', 'version',
                        'spec', 'gmtime', 'object'):
                return True
            if v.op == 'lin' and v.args[0] == 'dt':
                return True
        return False

    def range_of(self, t, st):
        if self.e.types_of(t, st) == T_BOOL:
            return (Fraction(0), False, Fraction(1), False)
        if not isinstance(t, App):
            return None
        if t.op in ('len', 'idx'):
            return (Fraction(0), False, self.most(t.args[0])
                    if t.op == 'len' else None, False)
        if t.op == 'elem' and isinstance(t.args[0], App) and \
                t.args[0].op == 'ints':
            lo, hi = t.args[0].args
            return (Fraction(lo.v), False, Fraction(hi.v - 1), False)
        if t.op == 'upk':
            n = {'u1': 1, 'u2': 2, 'u4': 4, 'u8': 8}.get(t.args[0])
            if n:
                return (Fraction(0), False, Fraction(256 ** n - 1), False)
        if t.op == 'shl' and t.args[0] == C(1):
            return (Fraction(1), False, None, False)
        if t.op == 'bitand' and isinstance(t.args[0], C) and \
                isinstance(t.args[0].v, int) and t.args[0].v >= 0:
            return (Fraction(0), False, Fraction(t.args[0].v), False)
        if t.op in ('frombytes', 'uuidnode', 'bitand') and (
                t.op != 'frombytes' or 'signed' not in t.args):
            return (Fraction(0), False, None, False)
        if t.op == 'ceil' or t.op == 'floor':
            return None
        return None

    def most(self, v):
        """The most elements the collection v can have, or None"""
        if not isinstance(v, App):
            return None
        if v.op in ('set', 'list') and len(v.args) == 1:
            d = list(v.args[0]) if v.op == 'set' else [v.args[0]]
            if len(d) == 1 and isinstance(d[0], Many) and isinstance(
                    d[0].seq, App) and d[0].seq.op == 'ints':
                return self.most(d[0].seq)
        if v.op == 'ints':
            return Fraction(v.args[1].v - v.args[0].v)
        if v.op in ('setof', 'setminus', 'sorted'):
            return self.most(v.args[0])
        if v.op == 'setand':
            ms = [m for m in map(self.most, v.args) if m is not None]
            return min(ms) if ms else None
        return None

    # ------------------------------------------------------- lengths, slices
    def len_of(self, v, st=None):
        if isinstance(v, C):
            return len(v.v) if isinstance(v.v, (str, bytes)) else None
        if isinstance(v, Tup):
            return None if any(isinstance(i, Many) for i in v.items) \
                else len(v.items)
        if not isinstance(v, App):
            return self.len_fact(v, st)
        op = v.op
        if op in FIXED_LEN:
            return FIXED_LEN[op]
        n = {'sha3_256': 32, 'keccak256': 32, 'hmac': 32, 'ecsign': 65,
             'ecdh': 32, 'md5': 16, 'point': 64, 'sha512': 64, 'keccak': 32,
             'ethmsg': 32}.get(op)
        if n:
            return n
        if op == 'pubfmt':
            return 33 if v.args[0] == TRUE else None
        if op == 'pk':
            return pk_size(v.args[0])
        if op == 'input':
            return v.args[1]
        if op == 'fresh':
            return {'iv': 16, 'key': 32}.get(v.args[1]) or \
                self.len_fact(v, st)
        if op == 'cat':
            t = 0
            for p in v.args:
                n = self.len_of(p, st)
                if n is None:
                    return None
                t += n
            return t
        if op == 'slc':
            (a, x), (b, y) = v.args[1], v.args[2]
            n = self.len_of(v.args[0], st)
            if n is not None:
                lo = max(x, 0) if a == 's' else max(n - x, 0)
                hi = min(y, n) if b == 's' else n - y
                return max(hi - lo, 0)
            if a == b and self.min_len(v.args[0], st) >= max(x, y):
                return max(y - x if a == 's' else x - y, 0)
            return self.len_fact(v, st)
        if op == 'crypt':
            return self.len_of(v.args[-1], st)
        if op == 'hex':
            n = self.len_of(v.args[0], st)
            return None if n is None else 2 * n
        if op in ('uuidbytes', 'uuidfrombytes'):
            return 16 if op == 'uuidbytes' else None
        if op == 'encode':
            return None
        if op == 'str' and isinstance(v.args[0], App) and \
                v.args[0].op in ('uuid', 'uuid1'):
            return 36
        return self.len_fact(v, st)

    def min_len(self, v, st):
        if st is None:
            return 0
        n = self.len_of(v, st)
        if n is not None:
            return n
        ln = lin_of(self.e.length(v, st))
        if ln is None:
            return 0
        lo = self.e.bounds(ln[1], ln[2], st)[0]
        return lo if lo is not None else 0

    def len_fact(self, v, st):
        if st is None:
            return None
        r = st.iv.get(((App('len', v), Fraction(1)),))
        if r and r[0] is not None and r[0] == r[2]:
            return int(r[0])
        return None

    def len_term(self, v, st):
        if isinstance(v, App):
            if v.op == 'cat':
                tot = ('num', {}, Fraction(0))
                for p in v.args:
                    ln = self.e.length(p, st)
                    tot = lin_add(tot, lin_of(ln))
                return mk_lin(*tot)
            if v.op == 'slc':
                (a, x), (b, y) = v.args[1], v.args[2]
                if a == 's' and b == 'e' and \
                        self.min_len(v.args[0], st) >= x + y:
                    base = lin_of(self.e.length(v.args[0], st))
                    return mk_lin(*lin_add(base, ('num', {},
                                                  Fraction(-x - y))))
            if v.op == 'crypt':
                return self.e.length(v.args[-1], st)
            if v.op == 'sample':
                return v.args[1]
            if v.op == 'ints':
                return C(v.args[1].v - v.args[0].v)
            if v.op == 'setof' and v.args[0].op in ('ints', 'sample'):
                return self.len_term(v.args[0], st)
            if v.op == 'setof':
                return App('len', v)
        return App('len', v)

    def slice(self, b, lo, hi, step, st, n, fr):
        e = self.e
        if isinstance(step, C) and step.v is None and \
                isinstance(lo, C) and isinstance(hi, C):
            pl, ph = lo.v, hi.v
            if isinstance(b, C):
                try:
                    return [(st, C(b.v[pl:ph]))]
                except TypeError:
                    e.raise_(st.fork(), 'TypeError', (C('slice'),), n, fr)
                    return []
            if isinstance(b, (Tup, NT)) and not any(
                    isinstance(x, Many) for x in b.items):
                return [(st, Tup(*b.items[pl:ph]))]
            if isinstance(b, Ref):
                o = e.o(b, st)
                if o.kind == 'list':
                    if not any(isinstance(x, Many) for x in o.data):
                        s = st.fork()
                        return [(s, e.new_list(s, o.data[pl:ph]))]
                    b = e.freeze(b, st)
                elif o.kind == 'exc' or o.kind == 'inst':
                    return e.attr_error(b, '__getitem__', st, n, fr)
                else:
                    b = e.freeze(b, st)
            ty = e.types_of(b, st)
            if ty is not None and not ty & (SIZED | {'other'}):
                e.raise_(st.fork(), 'TypeError', (C('slice'),), n, fr)
                return []
            if ty is None or ty - SIZED:
                st = e.may_raise(st, ['TypeError'], App('subscr', b), n, fr)
                if st is None:
                    return []
            return [(st, self.cut(b, pl, ph, st))]
        if isinstance(b, C) and all(isinstance(x, C) for x in (lo, hi,
                                                               step)):
            return [(st, C(b.v[lo.v:hi.v:step.v]))]
        if isinstance(b, (Tup, NT)) and all(
                isinstance(x, C) for x in (lo, hi, step)):
            return [(st, Tup(*b.items[lo.v:hi.v:step.v]))]
        # symbolic bounds: len(b) - k
        if isinstance(step, C) and step.v is None:
            pl = self.bound_const(b, lo, st)
            ph = self.bound_const(b, hi, st)
            if pl is not False and ph is not False:
                if isinstance(b, Ref):
                    b = e.freeze(b, st)
                a = pl if isinstance(pl, tuple) else self.pos(pl, True)
                z = ph if isinstance(ph, tuple) else self.pos(ph, False)
                return [(st, self.cut_pos(b, a, z, st))]
        return [(st, App('sliceof', e.freeze(b, st), lo, hi, step))]

    def bound_const(self, b, x, st):
        """int, None, ('s'/'e', n) position, or False"""
        if isinstance(x, C):
            return x.v
        ln = lin_of(self.e.length(b, st))
        lx = lin_of(x)
        if ln is None or lx is None:
            return False
        d = lin_add(ln, lx, -1)
        if d is not None and not d[1] and d[2].denominator == 1:
            return ('e', int(d[2]))
        lo, _, hi, _ = self.e.bounds(lx[1], lx[2], st)
        if lo is not None and lo == hi and lo.denominator == 1:
            return int(lo)
        return False

    @staticmethod
    def pos(x, low):
        if x is None:
            return ('s', 0) if low else ('e', 0)
        return ('s', x) if x >= 0 else ('e', -x)

    def cut(self, b, lo, hi, st):
        return self.cut_pos(b, self.pos(lo, True), self.pos(hi, False), st)

    def cut_pos(self, b, lo, hi, st):
        if isinstance(b, C) and isinstance(b.v, (str, bytes)):
            n = len(b.v)
            x = lo[1] if lo[0] == 's' else n - lo[1]
            y = hi[1] if hi[0] == 's' else n - hi[1]
            return C(b.v[max(x, 0):max(y, 0)])
        if lo == ('s', 0) and hi == ('e', 0):
            return b
        if isinstance(b, App) and b.op == 'slc':
            base, l1, h1 = b.args
            if lo[0] == 's':
                nl = (l1[0], l1[1] + lo[1] if l1[0] == 's'
                      else l1[1] - lo[1])
            else:
                nl = (h1[0], h1[1] + lo[1] if h1[0] == 'e'
                      else h1[1] - lo[1])
            if hi[0] == 's':
                nh = (l1[0], l1[1] + hi[1] if l1[0] == 's'
                      else l1[1] - hi[1])
            else:
                nh = (h1[0], h1[1] + hi[1] if h1[0] == 'e'
                      else h1[1] - hi[1])
            if nl[0] == 'e' and nl[1] < 0 or nh[0] == 'e' and nh[1] < 0:
                return mk_slc(b, lo, hi)
            # a slice does not reach over the ends of the one it is cut of
            if nh[0] == h1[0]:
                nh = (nh[0], min(nh[1], h1[1]) if nh[0] == 's'
                      else max(nh[1], h1[1]))
            if nl[0] == l1[0]:
                nl = (nl[0], max(nl[1], l1[1]) if nl[0] == 's'
                      else min(nl[1], l1[1]))
            if nl == ('s', 0) and nh[0] == 's' and nh[1] <= 0:
                return C(b'') if not self.e.is_str(b, st) else C('')
            return mk_slc(base, nl, nh)
        if isinstance(b, App) and b.op == 'hex' and \
                lo[1] % 2 == 0 and hi[1] % 2 == 0:
            t = self.cut_pos(b.args[0], (lo[0], lo[1] // 2),
                             (hi[0], hi[1] // 2), st)
            return C(t.v.hex()) if isinstance(t, C) else App('hex', t)
        n = self.len_of(b, st)
        if n is not None:
            lo = ('s', min(lo[1] if lo[0] == 's' else n - lo[1], n))
            hi = ('s', min(hi[1] if hi[0] == 's' else n - hi[1], n))
            if lo[1] <= 0 and hi[1] >= n:
                return b
            if lo[1] >= hi[1]:
                return C(b'')
        if isinstance(b, App) and b.op == 'cat':
            r = self.cut_cat(list(b.args), lo, hi, st)
            if r is not None:
                return r
        if n is not None and hi[1] == n:
            hi = ('e', 0)
        return mk_slc(b, lo, hi)

    def cut_cat(self, parts, lo, hi, st):
        def drop_front(ps, k):
            ps = list(ps)
            while k > 0:
                if not ps:
                    return None
                n = self.len_of(ps[0], st)
                if n is None:
                    # may be cut if it is the only part left
                    if len(ps) == 1:
                        return [self.cut_pos(ps[0], ('s', k), ('e', 0),
                                             st)]
                    return None
                if n <= k:
                    ps.pop(0)
                    k -= n
                else:
                    ps[0] = self.cut_pos(ps[0], ('s', k), ('s', n), st)
                    k = 0
            return ps

        def drop_back(ps, k):
            ps = list(ps)
            while k > 0:
                if not ps:
                    return None
                n = self.len_of(ps[-1], st)
                if n is None:
                    if len(ps) == 1:
                        return [self.cut_pos(ps[0], ('s', 0), ('e', k),
                                             st)]
                    return None
                if n <= k:
                    ps.pop()
                    k -= n
                else:
                    ps[-1] = self.cut_pos(ps[-1], ('s', 0), ('s', n - k),
                                          st)
                    k = 0
            return ps

        def take_front(ps, k):
            out, ps = [], list(ps)
            while k > 0:
                if not ps:
                    return out
                n = self.len_of(ps[0], st)
                if n is None:
                    return None
                if n <= k:
                    out.append(ps.pop(0))
                    k -= n
                else:
                    out.append(self.cut_pos(ps[0], ('s', 0), ('s', k), st))
                    k = 0
            return out

        def take_back(ps, k):
            out, ps = [], list(ps)
            while k > 0:
                if not ps:
                    return out
                n = self.len_of(ps[-1], st)
                if n is None:
                    return None
                if n <= k:
                    out.insert(0, ps.pop())
                    k -= n
                else:
                    out.insert(0, self.cut_pos(ps[-1], ('s', n - k),
                                               ('s', n), st))
                    k = 0
            return out
        if hi[0] == 's':
            ps = take_front(parts, hi[1])
        else:
            ps = drop_back(parts, hi[1])
        if ps is None:
            # try the other end first
            if lo[0] == 's' and hi[0] == 's':
                ps = drop_front(parts, lo[1])
                if ps is None:
                    return None
                ps = take_front(ps, hi[1] - lo[1])
                return None if ps is None else cat(*ps)
            return None
        if lo[0] == 's':
            ps = drop_front(ps, lo[1])
        else:
            k = lo[1] - (hi[1] if hi[0] == 'e' else 0)
            if hi[0] != 'e':
                return None
            ps = take_back(ps, k)
        if ps is None:
            return None
        return cat(*ps) if ps else C(b'')

    def byte_at(self, b, i, st):
        if i >= 0:
            part = self.cut_pos(b, ('s', i), ('s', i + 1), st)
        else:
            part = self.cut_pos(b, ('e', -i), ('e', -i - 1), st)
        if self.e.is_str(b, st):
            return part
        if isinstance(part, C) and len(part.v) == 1:
            return C(part.v[0])
        return self.unpack1('u1', '>', part)

    def unpack1(self, code, endian, part):
        if isinstance(part, App) and part.op == 'pk':
            c, en, v = part.args
            if c == code and (en == endian or code in ('u1', 'bool')
                              or code[-1] in 'sp'):
                if code[-1] == 's' and code[:-1].isdigit():
                    return App('nulpad', code, v)
                return v
        if isinstance(part, C) and code[0] == 'u':
            n = pk_size(code)
            if n == len(part.v):
                return C(int.from_bytes(part.v, 'big' if endian == '>'
                                        else 'little'))
        if isinstance(part, C) and code == 'bool' and len(part.v) == 1:
            return C(part.v != b'\0')
        return App('upk', code, endian, part)

    def pack1(self, code, endian, v):
        if isinstance(v, App) and v.op == 'frombytes' and \
                len(v.args) == 2 and code[0] == 'u' and v.args[0] == C(
                    'big' if endian == '>' else 'little') and \
                self.len_of(v.args[1], None) == pk_size(code):
            return v.args[1]
        if isinstance(v, App) and v.op == 'upk' and v.args[0] == code and \
                v.args[1] == endian and code != 'bool' and \
                code[-1] not in 'sp':
            return v.args[2]
        if isinstance(v, C) and isinstance(v.v, int) and code[0] == 'u':
            try:
                return C(int(v.v).to_bytes(
                    pk_size(code), 'big' if endian == '>' else 'little'))
            except OverflowError:
                pass
        if code == 'bool' and isinstance(v, C):
            return C(bytes([bool(v.v)]))
        return App('pk', code, endian, v)

    # ------------------------------------------------------------- equality
    def eq_norm(self, a, b):
        """Normalise an equality question"""
        for x, y in ((a, b), (b, a)):
            if isinstance(x, App) and x.op == 'upk' and x.args[0] == 'u1' \
                    and isinstance(y, C) and isinstance(y.v, int):
                if not 0 <= y.v < 256:
                    return False
                return (x.args[2], C(bytes([y.v])))
            if isinstance(x, App) and x.op == 'upk' and \
                    isinstance(y, App) and y.op == 'upk' and \
                    x.args[:2] == y.args[:2]:
                return (x.args[2], y.args[2])
        if isinstance(a, App) and isinstance(b, App) and a.op == b.op and \
                a.op in INJECTIVE and len(a.args) == len(b.args) == 1:
            r = self.eq_norm(a.args[0], b.args[0])
            if a.args[0] == b.args[0]:
                return True
            if r is True or r is False:
                return r
            if a.op in ('hex', 'privkey'):
                return (a.args[0], b.args[0]) if r is None else r
            return None
        for x, y in ((a, b), (b, a)):
            if isinstance(x, App) and x.op == 'ecdh' and \
                    isinstance(x.args[0], App) and \
                    x.args[0].op == 'privkey' and \
                    isinstance(x.args[0].args[0], App) and \
                    x.args[0].args[0].op == 'fresh' and \
                    not _occurs(x.args[0].args[0], y):
                return False
            if isinstance(x, App) and x.op == 'fresh' and \
                    not _occurs(x, y):
                return False    # nothing else can be this random value
        pa = list(a.args) if isinstance(a, App) and a.op == 'cat' else [a]
        pb = list(b.args) if isinstance(b, App) and b.op == 'cat' else [b]
        if len(pa) == 1 and len(pb) == 1:
            return None
        changed = False
        while pa and pb and pa[0] == pb[0]:
            pa.pop(0)
            pb.pop(0)
            changed = True
        while pa and pb and pa[-1] == pb[-1]:
            pa.pop()
            pb.pop()
            changed = True
        for i in (0, -1):
            if pa and pb and isinstance(pa[i], C) and isinstance(pb[i], C) \
                    and type(pa[i].v) is type(pb[i].v):
                x, y = pa[i].v, pb[i].v
                k = min(len(x), len(y))
                if (x[:k] != y[:k]) if i == 0 else \
                        (x[len(x) - k:] != y[len(y) - k:]):
                    return False
        if not changed:
            return None
        if not pa and not pb:
            return True
        kind = C(b'')
        for p in list(a.args if isinstance(a, App) else [a]) + \
                list(b.args if isinstance(b, App) else [b]):
            if isinstance(p, C):
                kind = C(type(p.v)()) if isinstance(p.v, (str, bytes)) \
                    else kind
        x, y = cat(*pa) if pa else kind, cat(*pb) if pb else kind
        r = self.eq_norm(x, y)
        return (x, y) if r is None else r

    # ------------------------------------------------------------ arithmetic
    def num_check(self, vals, st, n, fr):
        """Operands of an arithmetic operation must be numbers"""
        e = self.e
        for x in vals:
            if isinstance(x, App) and x.op == 'lin':
                continue
            ty = e.types_of(x, st)
            if ty is not None and not ty & (NUM | {'other'}):
                e.raise_(st.fork(), 'TypeError', (C('arithmetic'),), n, fr)
                return None
            if ty is None or ty - NUM:
                if ty == T_OTHER:
                    continue
                s = e.may_raise(st, ['TypeError'], App('arith', x), n, fr)
                if s is None:
                    return None
                if s is not st:
                    e.refine_ty(s, x, NUM | {'other'})
                st = s
        return st

    def binop(self, name, a, b, st, n, fr):
        e = self.e
        ra = e.o(a, st) if isinstance(a, Ref) else None
        rb = e.o(b, st) if isinstance(b, Ref) else None
        # user-defined operators
        if ra is not None and ra.kind == 'inst' and isinstance(ra.cls, Cls):
            dn = {'Add': '__add__', 'Sub': '__sub__', 'BitOr': '__or__',
                  'Mult': '__mul__', 'BitAnd': '__and__'}.get(name)
            m = dn and e.cls_lookup(ra.cls, dn, st)
            if m and isinstance(m[1], Fn):
                return e.call(Bound(m[1], a), [b], {}, st, n, fr)
        for x in (a, b):
            r = x
            while isinstance(r, App) and r.op in ('attr', 'call'):
                r = r.args[0]
            if isinstance(r, App) and r.op == 'ext':
                return [(st, App('ext', name, e.freeze(a, st),
                                 e.freeze(b, st)))]
        ta, tb = e.types_of(a, st), e.types_of(b, st)
        # sets
        setlike = ('set',)
        if name in ('Sub', 'BitOr', 'BitAnd', 'BitXor') and (
                ta == frozenset(['set']) or tb == frozenset(['set'])):
            return [self.setop(name, a, b, st)]
        if name == 'BitOr' and ra is not None and e.is_dictlike(ra):
            s = st.fork()
            r = e.new(s, ra.but(kind='dict', cls=Ext('builtins.dict'),
                                attrs={}))
            return [(s2, r) for s2, _ in self.m_dict_update(
                r, [b], {}, s, n, fr)]
        if name == 'Mod' and (isinstance(a, C) and isinstance(
                a.v, (str, bytes)) or ta == T_STR):
            return [(st, self.percent(a, b, st))]
        if name == 'Add':
            if isinstance(a, (Tup, NT)) and isinstance(b, (Tup, NT)):
                return [(st, Tup(*(a.items + b.items)))]
            if ra is not None and ra.kind == 'list':
                if rb is not None and rb.kind in ('list',):
                    s = st.fork()
                    return [(s, e.new_list(s, ra.data + rb.data))]
                if rb is None and isinstance(b, (Sym, App)) and (
                        tb is None or tb & {'list', 'other'}):
                    fb = e.freeze(b, st)
                    s = st.fork()
                    return [(s, e.new_list(s, ra.data + (Many(
                        fb, App('elem', fb), frozenset()),)))]
                e.raise_(st.fork(), 'TypeError', (C('list +'),), n, fr)
                return []
            if rb is not None and rb.kind == 'list' and ra is None and \
                    isinstance(a, (Sym, App)) and (
                        ta is None or ta & {'list', 'other'}):
                fa = e.freeze(a, st)
                s = st.fork()
                return [(s, e.new_list(s, (Many(
                    fa, App('elem', fa), frozenset()),) + rb.data))]
            texty = frozenset(['str', 'bytes', 'bytearray'])
            sa = ta is not None and ta and ta <= texty
            sb = tb is not None and tb and tb <= texty
            if sa or sb:
                for x, tx, ty_ in ((a, ta, tb), (b, tb, ta)):
                    if tx is not None and not tx & texty and \
                            'other' not in tx:
                        e.raise_(st.fork(), 'TypeError', (C('+'),), n, fr)
                        return []
                    if tx is None or tx - texty:
                        s = e.may_raise(st, ['TypeError'], App('concat', x),
                                        n, fr)
                        if s is None:
                            return []
                        if s is not st:
                            e.refine_ty(s, x, (ty_ or texty) | {'other'})
                        st = s
                if sa and sb and ('str' in ta) != ('str' in tb) and \
                        len(ta) == len(tb) == 1:
                    e.raise_(st.fork(), 'TypeError', (C('+'),), n, fr)
                    return []
                a, b = self.as_text(a), self.as_text(b)
                return [(st, cat(a, b))]
        if name == 'Mult':
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Ref) and e.o(x, st).kind == 'list' and \
                        isinstance(y, C):
                    s = st.fork()
                    return [(s, e.new_list(s, e.o(x, s).data * y.v))]
                if isinstance(x, Tup) and isinstance(y, C):
                    return [(st, Tup(*(x.items * y.v)))]
        if name in ('BitAnd', 'BitOr', 'BitXor') and (
                ta == T_BOOL and tb == T_BOOL):
            out = []
            for s, x in e.truth(a, st, n, fr):
                for s2, y in e.truth(b, s, n, fr):
                    out.append((s2, C({'BitAnd': x and y, 'BitOr': x or y,
                                       'BitXor': x != y}[name])))
            return out
        for x in (a, b):
            if isinstance(x, (Ref, Tup, NT)):
                e.raise_(st.fork(), 'TypeError', (C(name),), n, fr)
                return []
        if name in ('Add', 'Sub') and ta is None and tb is None and not (
                isinstance(a, App) and a.op == 'lin') and not (
                    isinstance(b, App) and b.op == 'lin'):
            st = e.may_raise(st, ['TypeError'], App('arith2', a, b), n, fr)
            if st is None:
                return []
            if name == 'Add':
                return [(st, App('add', a, b))]
        st = self.num_check((a, b), st, n, fr)
        if st is None:
            return []
        la, lb = lin_of(a), lin_of(b)
        if name in ('Add', 'Sub') and la and lb:
            sign = 1 if name == 'Add' else -1
            r = lin_add(la, lb, sign)
            if r is None:
                if la[0] == 'num' and la[1] and lb[0] in ('td', 'dt'):
                    r = lin_add(('dt' if name == 'Sub' and lb[0] == 'dt'
                                 else 'td',) + la[1:], lb, sign)
                elif lb[0] == 'num' and lb[1] and la[0] in ('td', 'dt'):
                    r = lin_add(la, ('td',) + lb[1:], sign)
            if r is not None:
                return [(st, mk_lin(*r))]
            e.raise_(st.fork(), 'TypeError', (C('time arithmetic'),), n, fr)
            return []
        if name == 'Mult' and la and lb:
            for x, y in ((la, lb), (lb, la)):
                if not x[1] and x[0] == 'num':
                    r = lin_scale(y, x[2])
                    if r is not None:
                        return [(st, mk_lin(*r))]
            if show(b) < show(a):
                a, b = b, a
            return [(st, App('mul', a, b))]
        if name == 'Div' and la and lb:
            if not lb[1] and lb[0] == 'num':
                if lb[2] == 0:
                    e.raise_(st.fork(), 'ZeroDivisionError', (), n, fr)
                    return []
                r = lin_scale(la, 1 / lb[2])
                if r is not None:
                    return [(st, mk_lin(*r))]
            if not lb[1] and lb[0] == la[0] == 'td' and lb[2]:
                return [(st, mk_lin('num', {t: c / lb[2] for t, c in
                                            la[1].items()},
                                    la[2] / lb[2]))]
            if lb[1]:
                st = e.may_raise(st, ['ZeroDivisionError'], App('zero', b),
                                 n, fr)
                if st is None:
                    return []
            return [(st, App('div', a, b))]
        if name in ('FloorDiv', 'Mod'):
            low = e.bounds(lb[1], lb[2], st)[0] if lb else None
            if not (isinstance(b, C) and b.v) and not (
                    low is not None and low > 0):
                st = e.may_raise(st, ['ZeroDivisionError'], App('zero', b),
                                 n, fr)
                if st is None:
                    return []
            if name == 'FloorDiv' and la and lb and not lb[1] and \
                    la[0] == lb[0] == 'td' and lb[2] == 1:
                return [(st, App('floor', mk_lin('num', la[1], la[2])))]
            if e.intlike(a, st):
                if name == 'FloorDiv' and isinstance(b, App) and \
                        b.op == 'shl' and b.args[0] == C(1):
                    return [(st, App('rshift', a, b.args[1]))]
                if name == 'Mod' and b == C(2) and isinstance(a, App) and \
                        a.op == 'rshift':
                    return [(st, App('bitand', C(1), a))]
            return [(st, App(name.lower(), a, b))]
        if name == 'Pow' and a == C(2) and lb and lb[1] and \
                e.intlike(b, st):
            lo = e.bounds(lb[1], lb[2], st)[0]
            if lo is not None and lo >= 0:
                return [(st, App('shl', C(1), b))]
        if name == 'LShift':
            if la and isinstance(b, C) and isinstance(b.v, int) and \
                    e.intlike(a, st):
                return [(st, mk_lin(*lin_scale(la, Fraction(2 ** b.v))))]
            return [(st, App('shl', a, b))]
        if name in ('BitOr', 'BitAnd', 'BitXor'):
            if show(b) < show(a):
                a, b = b, a
            return [(st, App(name.lower(), a, b))]
        return [(st, App(name.lower(), a, b))]

    def as_text(self, v):
        if isinstance(v, EnumM):
            return v.value
        return v

    def set_items(self, v, st):
        """Known elements of a set, or None"""
        if isinstance(v, Ref):
            o = self.e.o(v, st)
            if o.kind in ('set', 'list', 'gen') and not any(
                    isinstance(i, Many) for i in o.data):
                return list(o.data)
        if isinstance(v, Native) and v.k[0] == 'keys' and \
                isinstance(v.k[1], Ref):
            o = self.e.o(v.k[1], st)
            if o.src is None and not any(isinstance(i, Many)
                                         for i in o.data):
                return [i[0] for i in o.data]
        if isinstance(v, Tup) and not any(isinstance(i, Many)
                                          for i in v.items):
            return list(v.items)
        return None

    def setop(self, name, a, b, st):
        e = self.e
        x, y = self.set_items(a, st), self.set_items(b, st)
        if x is not None and y is not None and all(
                e.is_const(i) for i in x + y):
            if name == 'Sub':
                r = [i for i in x if i not in y]
            elif name == 'BitOr':
                r = x + [i for i in y if i not in x]
            elif name == 'BitAnd':
                r = [i for i in x if i in y]
            else:
                r = [i for i in x if i not in y] + [i for i in y
                                                    if i not in x]
            s = st.fork()
            return s, e.new_set(s, r)
        op = {'Sub': 'setminus', 'BitOr': 'setor', 'BitAnd': 'setand',
              'BitXor': 'setxor'}[name]
        return st, App(op, self.setof(a, st), self.setof(b, st))

    def setof(self, v, st):
        f = self.e.freeze(v, st)
        if isinstance(f, App) and f.op == 'list':
            return App('set', frozenset(f.args))
        if isinstance(f, App) and f.op in ('set', 'setor', 'setminus',
                                           'setand', 'setof', 'setxor'):
            return f
        if self.e.types_of(f, st) == frozenset(['set']):
            return f
        return App('setof', f)

    def subset(self, a, b, st, n, fr):
        x, y = self.set_items(a, st), self.set_items(b, st)
        if x is not None and y is not None and all(
                self.e.is_const(i) for i in x + y):
            return [(st, all(i in y for i in x))]
        if x is not None:
            live, out = [st], []
            for i in x:
                nxt = []
                for s in live:
                    for s2, r in self.e.contains(b, i, s, n, fr):
                        (nxt if r else out).append(s2 if r else (s2, False))
                live = nxt
            return out + [(s, True) for s in live]
        return self.e.fork_atom(App('subset', self.setof(a, st),
                                    self.setof(b, st)), st)

    # ------------------------------------------------------------ formatting
    def fmt1(self, v, conv, spec, st):
        if conv == 'r':
            r = self.to_repr(v, st)
        elif conv == 's' or not spec:
            r = self.to_str(v, st)
        else:
            if isinstance(v, C):
                try:
                    return C(format(v.v, spec))
                except (ValueError, TypeError):
                    pass
            return App('fmt', spec, self.e.freeze(v, st))
        if spec:
            return App('fmt', spec, r)
        return r

    def joinfmt(self, vals):
        if not vals:
            return C('')
        return cat(*vals)

    def to_str(self, v, st):
        e = self.e
        if isinstance(v, C):
            return C(str(v.v))
        if isinstance(v, App) and v.op == 'uuidfrombytes' and isinstance(
                v.args[0], C) and isinstance(v.args[0].v, bytes) and len(
                v.args[0].v) == 16:
            return C(str(uuid.UUID(bytes=v.args[0].v)))
        if isinstance(v, Phi):
            return App('str', v)
        if isinstance(v, EnumM):
            if e.enum_is_str(v.k[0]):
                return App('str', v)
            return App('str', v)
        if e.is_str(v, st):
            return v
        if isinstance(v, (Cls, Ext, Mod)):
            return C(str(e.cls_name(v) if not isinstance(v, Mod)
                         else v.k[0]))
        return App('str', e.freeze(v, st))

    def to_repr(self, v, st):
        if isinstance(v, C):
            return C(repr(v.v))
        return App('repr', self.e.freeze(v, st))

    def percent(self, a, b, st):
        items = list(b.items) if isinstance(b, Tup) else [b]
        f = self.e.freeze
        if isinstance(a, C) and isinstance(a.v, str):
            parts, i, t = [], 0, a.v
            out = ''
            k = 0
            ok = True
            while k < len(t):
                if t[k] == '%' and k + 1 < len(t):
                    j = k + 1
                    while j < len(t) and t[j] in '0123456789.-+# ':
                        j += 1
                    if j >= len(t):
                        ok = False
                        break
                    ch = t[j]
                    if ch == '%':
                        out += '%'
                    elif ch == '(' or i >= len(items):
                        ok = False
                        break
                    else:
                        if out:
                            parts.append(C(out))
                            out = ''
                        spec = t[k + 1:j]
                        v = items[i]
                        i += 1
                        if ch == 'r':
                            parts.append(self.to_repr(v, st))
                        elif ch == 's' and not spec:
                            parts.append(self.to_str(v, st))
                        elif isinstance(v, C):
                            try:
                                parts.append(C(('%' + spec + ch) % v.v))
                            except TypeError:
                                parts.append(App('fmt', spec + ch, v))
                        else:
                            parts.append(App('fmt', spec + (
                                ch if ch != 'd' else ''), f(v, st))
                                if spec + ch != 'd'
                                else self.to_str(v, st))
                    k = j + 1
                else:
                    out += t[k]
                    k += 1
            if ok:
                if out:
                    parts.append(C(out))
                return cat(*parts) if parts else C('')
        return App('fmt', f(a, st), *[f(i, st) for i in items])

    def str_format(self, tmpl, args, kws, st, n, fr):
        e = self.e
        parts = []
        auto = 0
        try:
            parsed = list(string.Formatter().parse(tmpl))
        except ValueError:
            e.raise_(st.fork(), 'ValueError', (C('format'),), n, fr)
            return []
        for lit, field, spec, conv in parsed:
            if lit:
                parts.append(C(lit))
            if field is None:
                continue
            name = field
            rest = ''
            for i, ch in enumerate(field):
                if ch in '.[':
                    name, rest = field[:i], field[i:]
                    break
            if name == '':
                k = auto
                auto += 1
            elif name.isdigit():
                k = int(name)
            else:
                k = name
            if isinstance(k, int):
                if any(isinstance(a, Many) for a in args):
                    v = App('fmtarg', *[e.freeze(a, st) for a in args])
                elif k >= len(args):
                    e.raise_(st.fork(), 'IndexError', (C('format'),), n, fr)
                    return []
                else:
                    v = args[k]
            else:
                if k not in kws:
                    if '**' in kws:
                        v = App('item', kws['**'], C(k))
                    else:
                        e.raise_(st.fork(), 'KeyError', (C(k),), n, fr)
                        return []
                else:
                    v = kws[k]
            while rest:
                if rest[0] == '.':
                    j = 1
                    while j < len(rest) and rest[j] not in '.[':
                        j += 1
                    r = e.getattr(v, rest[1:j], st, n, fr)
                    if not r:
                        return []
                    st, v = r[0]
                    rest = rest[j:]
                else:
                    j = rest.index(']')
                    key = rest[1:j]
                    v = App('item', e.freeze(v, st),
                            C(int(key) if key.isdigit() else key))
                    rest = rest[j + 1:]
            parts.append(self.fmt1(v, conv or '', spec or '', st))
        return [(st, self.joinfmt(parts))]

    # ------------------------------------------------------------- iterating
    def iter_view(self, v, st, n, fr):
        """keys/values/items of a dict-like"""
        e = self.e
        kind, d = v.k[0], v.k[1]

        def pick(k, x):
            return k if kind == 'keys' else x if kind == 'values' \
                else Tup(k, x)
        if isinstance(d, Ref):
            o = e.o(d, st)
            if len(o.data) > 40 and not any(isinstance(i, Many)
                                            for i in o.data):
                did = e.dict_id(d, st)
                k = App('elem', App('keys', did))
                return [(st, [Many(App('keys', did), pick(
                    k, App('dictget', did, k)), frozenset())])]
            out = []
            for it in o.data:
                if isinstance(it, Many):
                    kv = it.val
                    if isinstance(kv, Tup):
                        out.append(Many(it.seq, pick(*kv.items), it.conds))
                    else:
                        out.append(Many(it.seq, pick(
                            App('key', kv), App('val', kv)), it.conds))
                else:
                    out.append(pick(*it))
            if o.src is not None:
                src = App('minus', o.src, o.gone) if o.gone else o.src
                k = App('elem', src)
                out.append(Many(src, pick(k, App('item', src, k)),
                                frozenset()))
            return [(st, out)]
        k = App('elem', d)
        return [(st, [Many(d, pick(k, App('item', d, k)), frozenset())])]

    def items_of(self, v, st, n, fr):
        return self.e.iterate(v, st, n, fr)

    # ----------------------------------------------------------------- enums
    def enum_contains(self, c, x, st, n, fr):
        e = self.e
        info = e.classes[c.k[0]]
        if isinstance(x, EnumM):
            return [(st, x.k[0] == c)]
        vals = [m.value for m in info.members.values()]
        # Python 3.8 to 3.11 refuse anything but a member here; 3.12 also
        # accepts member values.
        st = e.may_raise(st, ['TypeError'], App(
            'enumcontains', c, e.freeze(x, st)), n, fr)
        if st is None:
            return []
        st = st.fork()
        st.event('enumcontains', c, e.freeze(x, st), e.loc(n, fr))
        return e.any_eq(vals, x, st, n, fr)

    def enum_call(self, cls, args, kws, st, n, fr):
        e = self.e
        info = e.classes[cls.k[0]]
        if not args:
            args = list(kws.values())
        if len(args) != 1:
            e.raise_(st.fork(), 'TypeError', (C(info.name),), n, fr)
            return []
        out = []
        for s, x in e.split(args[0], st):
            if isinstance(x, EnumM) and x.k[0] == cls:
                out.append((s, x))
                continue
            if isinstance(x, EnumM) and e.enum_is_str(x.k[0]):
                x = x.value
            members = []
            for m in info.members.values():
                if m not in members:
                    members.append(m)
            if isinstance(x, C):
                hit = [m for m in members if m.value == x]
                if hit:
                    out.append((s, hit[0]))
                else:
                    out.extend(self.enum_missing(cls, x, s.fork(), C(
                        '%r is not a valid %s' % (x.v, info.name)), n, fr))
                continue
            f = e.freeze(x, s)
            atom = App('isvalue', cls, f)
            known = s.facts.get(atom)
            if known is None:
                live = [m for m in members if any(
                    b for _, b in e.eq(x, m.value, s, n, fr))]
                if not live:
                    known = False
            if known is not True:
                bad = s.assume(atom, False) if known is None else s.fork()
                for m in members:
                    if isinstance(x, (Sym, App)):
                        key = App('eq', *sorted([x, m.value], key=show))
                        bad.facts.setdefault(key, False)
                out.extend(self.enum_missing(cls, x, bad, C(
                    'not a valid %s' % info.name), n, fr))
                if known is False:
                    continue
                s = s.assume(atom, True)
            out.append((s, App('enum', cls, f)))
        return out

    def enum_missing(self, cls, x, st, text, n, fr):
        """No member has the value x: ask the class"""
        e = self.e
        m = e.cls_lookup(cls, '_missing_', st)
        if m is None or not isinstance(m[1], CM) or \
                isinstance(m[1].k[0], Ext):
            e.raise_(st, 'ValueError', (text,), n, fr)
            return []
        out = []
        for s, v in e.call(Bound(m[1].k[0], cls), [x], {}, st, n, fr):
            if isinstance(v, EnumM) and v.k[0] == cls:
                out.append((s, v))
            elif v == NONE:
                e.raise_(s.fork(), 'ValueError', (text,), n, fr)
            elif isinstance(v, (C, Ref, Tup)):
                e.raise_(s.fork(), 'TypeError', (text,), n, fr)
            else:
                out.append((s, v))
        return out

    # ------------------------------------------------------------ attributes
    def ext_cls_attr(self, c, name):
        """Attribute of an outside base class, if it defines it"""
        if not c.name.startswith('builtins.'):
            if c.name == 'enum.Enum' and name == '_missing_':
                return CM(Ext('enum.Enum._missing_'))
            return None
        t = c.name[9:]
        if t in PYT and t not in ('object',):
            if name in ('__init__', '__new__', '__class__', '__doc__',
                        '__repr__', '__eq__', '__hash__', '__setattr__',
                        '__getattribute__', '__ne__', '__str__',
                        '__format__', '__reduce__', '__reduce_ex__',
                        '__sizeof__', '__dir__', '__init_subclass__',
                        '__subclasshook__', '__delattr__', '__class_getitem__',
                        '__lt__', '__le__', '__gt__', '__ge__', '__iter__',
                        '__len__', '__bool__', '__getattr__',
                        '__getstate__', '__missing__', '__call__'):
                return None
            if hasattr(PYT[t], name):
                return Native('meth', t, name)
        return None

    def ext_attr(self, b, name):
        full = b.name + '.' + name
        if full in ALIASES:
            return ALIASES[full]
        if full == 'sys.platform':
            return C('linux')
        if b.name in ('string',) and isinstance(
                getattr(string, name, None), str):
            return C(getattr(string, name))
        if full in ('datetime.timedelta.max', 'datetime.timedelta.min'):
            return C(getattr(datetime.timedelta, name))
        if b.name in ('datetime.datetime', 'datetime.timedelta') and \
                name in ('__name__', '__qualname__'):
            return C(b.name.rpartition('.')[2])
        if name in ('__name__', '__qualname__'):
            return C(b.name.rpartition('.')[2])
        if full in ('math.inf', 'math.nan'):
            return C(float(full[5:]))
        if full == 'os.environ':
            return Ext('os.environ')
        return Ext(full)

    def fn_attr(self, b, name, st, n, fr):
        e = self.e
        if isinstance(b, Prop):
            if name in ('setter', 'getter', 'deleter'):
                return [(st, Native('prop' + name, b))]
            if name == 'fget':
                return [(st, b.k[0])]
            if name == 'fset':
                return [(st, b.k[1] or NONE)]
        if isinstance(b, Cached):
            if name in ('cache_clear', 'cache_info', '__wrapped__'):
                if name == '__wrapped__':
                    return [(st, b.k[0])]
                return [(st, Native(name, b))]
            return self.fn_attr(b.k[0], name, st, n, fr)
        if isinstance(b, Bound):
            if name == '__self__':
                return [(st, b.k[1])]
            if name == '__func__':
                return [(st, b.k[0])]
            return self.fn_attr(b.k[0], name, st, n, fr)
        if isinstance(b, Partial):
            if name == 'func':
                return [(st, b.k[0])]
            if name == 'args':
                return [(st, Tup(*b.k[1]))]
            if name == 'keywords':
                s = st.fork()
                return [(s, e.new_dict(s, [(C(k), v)
                                           for k, v in b.k[2]]))]
        if isinstance(b, Fn):
            info = e.funcs[b.k[0]]
            if name == '__name__':
                return [(st, C(info.node.name if hasattr(
                    info.node, 'name') else '<lambda>'))]
            if name == '__qualname__':
                return [(st, C(info.qual))]
            if name == '__module__':
                return [(st, C(info.mod))]
            if name == '__doc__':
                return [(st, NONE)]
            if name == '__get__':
                return [(st, Native('fnget', b))]
            o = st.heap.get(('fnattrs', b.k[0])) or e.base.get(
                ('fnattrs', b.k[0]))
            if o is not None and name in o.attrs:
                return [(st, o.attrs[name])]
        if isinstance(b, Native):
            if b.k[0] in ('keys', 'values', 'items') and name == 'isdisjoint':
                return [(st, Native('bound', 'set', name, b))]
            if b.k[0] == 'struct' and name == 'size':
                return [(st, C(struct.calcsize(b.k[1])))]
            if b.k[0] == 'struct' and name in ('pack', 'unpack',
                                               'unpack_from', 'format'):
                if name == 'format':
                    return [(st, C(b.k[1]))]
                return [(st, Partial(Ext('struct.' + name), (C(b.k[1]),),
                                     ()))]
            if b.k[0] == 'logger':
                return [(st, Native('log', name))]
            if name == '__name__':
                return [(st, C(str(b.k[-1])))]
            if name in ('__get__',):
                return [(st, b)]
            if b.k[0] in ('keys', 'values', 'items'):
                return [(st, Native('bound', 'set', name, b))]
        if name in ('__doc__', '__module__', '__name__', '__qualname__',
                    '__wrapped__', '__dict__'):
            return [(st, App('attr', App('fn', show(b)), name))]
        return e.attr_error(b, name, st, n, fr)

    FIELD_OPS = {
        # attributes of modelled opaque values
        ('uuid', 'node'): 'uuidnode', ('uuid1', 'node'): 'uuidnode',
        ('uuidfrombytes', 'node'): 'uuidnode',
        ('uuid', 'bytes'): 'uuidbytes', ('uuid1', 'bytes'): 'uuidbytes',
        ('privkey', 'public_key'): 'pubkey', ('privkey', 'secret'): 'secret',
    }

    def value_attr(self, b, name, st, n, fr):
        e = self.e
        if isinstance(b, App):
            r = self.app_attr(b, name, st, n, fr)
            if r is not None:
                return r
        if name == '__class__':
            if isinstance(b, C):
                return [(st, Ext('builtins.' + type(b.v).__name__))]
            return [(st, App('class', e.freeze(b, st)))]
        if isinstance(b, C) and isinstance(b.v, datetime.timedelta):
            if name == 'total_seconds':
                return [(st, Native('bound', 'td', name, b))]
            if name in ('days', 'seconds', 'microseconds'):
                return [(st, C(getattr(b.v, name)))]
        if isinstance(b, C) and hasattr(b.v, name):
            x = getattr(b.v, name)
            if callable(x):
                return [(st, Native('bound', type(b.v).__name__, name, b))]
            if isinstance(x, (int, float, str, bytes)):
                return [(st, C(x))]
        if isinstance(b, Tup) and name in ('count', 'index'):
            return [(st, Native('bound', 'tuple', name, b))]
        ty = e.types_of(b, st)
        if ty is None:
            ty = UNIVERSE
        have = frozenset(t for t in ty if t in PYT and hasattr(PYT[t], name))
        if not have and 'other' not in ty:
            return e.attr_error(b, name, st, n, fr)
        known = st.facts.get(App('hasattr', b, name))
        if known is False:
            return e.attr_error(b, name, st, n, fr)
        if known is not True and (
                ty - have - {'other'} or ('other' in ty and
                                          not self.trusted(b))):
            s = e.may_raise(st, ['AttributeError'], App('attr', b, name),
                            n, fr)
            if s is None:
                return []
            if s is not st and have | {'other'} != ty:
                e.refine_ty(s, b, have | {'other'})
            if s is not st:
                s.facts[App('hasattr', b, name)] = True
                # the raising side knows the attribute is missing
                if e.sink:
                    e.sink[-1][0].facts[App('hasattr', b, name)] = False
            st = s
        if have:
            t = sorted(have)[0] if len(have) == 1 else '?'
            return [(st, Native('bound', t, name, b))]
        return [(st, App('attr', b, name))]

    def trusted(self, b):
        """Values whose attributes the program may rely on"""
        r = b
        while isinstance(r, App) and r.op == 'attr':
            r = r.args[0]
        return isinstance(r, App) and r.op in ('self', 'obj') or \
            isinstance(r, Sym) and r.name.startswith('obj:')

    def app_attr(self, b, name, st, n, fr):
        e = self.e
        op = b.op
        if op in ('uuid', 'uuid1', 'uuidfrombytes'):
            if op == 'uuidfrombytes' and isinstance(b.args[0], C) and \
                    isinstance(b.args[0].v, bytes) and \
                    len(b.args[0].v) == 16:
                v = getattr(uuid.UUID(bytes=b.args[0].v), name, None)
                if type(v) in (int, str, bytes):
                    return [(st, C(v))]
            if name == 'node':
                if op == 'uuid1' and b.args[0] != NONE:
                    return [(st, b.args[0])]
                return [(st, App('uuidnode', b))]
            if name == 'bytes':
                if op == 'uuidfrombytes':
                    return [(st, b.args[0])]
                return [(st, App('uuidbytes', b))]
            if name == 'hex':
                return [(st, App('hex', b.args[0] if op == 'uuidfrombytes'
                                 else App('uuidbytes', b)))]
            if name == 'int':
                return [(st, App('frombytes', C('big'), b.args[0]
                                 if op == 'uuidfrombytes'
                                 else App('uuidbytes', b)))]
            return [(st, App('uuidattr', name, b))]
        if op == 'ethsign' and name in ('v', 'r', 's', 'messageHash',
                                        'signature'):
            return [(st, App('item', b, C(name)))]
        if op == 'privkey':
            if name == 'public_key':
                return [(st, App('pubkey', b))]
            if name == 'secret':
                return [(st, b.args[0] if b.args else b)]
        if op == 'cipher' and name == 'ciphering':
            return [(st, Native('ciphering', b))]
        if op == 'lin' or op == 'timeval':
            if name == 'total_seconds':
                return [(st, Native('bound', 'td', name, b))]
            if b.args[0] == 'td' and name in ('days', 'seconds',
                                              'microseconds'):
                return [(st, App('td' + name, b))]
            if b.args[0] == 'dt':
                if name in ('timestamp', 'replace', 'isoformat', 'strftime',
                            'timetuple', 'utctimetuple', 'astimezone'):
                    return [(st, Native('bound', 'dt', name, b))]
                return [(st, App('dt' + name, b))]
        if op == 'enum':
            if name == 'value':
                f = b.args[1]
                return [(st, f)]
            if name == 'name':
                return [(st, App('enumname', b))]
            r = e.cls_lookup(b.args[0], name, st)
            if r is not None:
                return e.bind(r[1], b, b.args[0], st, n, fr)
            if name == '__class__':
                return [(st, b.args[0])]
            if e.enum_is_str(b.args[0]):
                return self.value_attr(b.args[1], name, st, n, fr)
            return e.attr_error(b, name, st, n, fr)
        if op == 'enumitem':
            if name in ('value', 'name'):
                return [(st, App('attr', b, name))]
        if op == 'class':
            return [(st, App('typename', b, name)
                     if name in ('__name__', '__qualname__', '__module__')
                     else App('attr', b, name))]
        if op == 'dictget' and name not in DICT_METHODS:
            return [(st, App('attr', b, name))]
        if op in ('attr', 'self', 'call', 'mcall', 'enter', 'object',
                  'pubkey', 'recover', 'pubkeyobj', 'version', 'spec',
                  'superattr', 'ext'):
            ty = e.types_of(b, st)
            if op in ('attr', 'call', 'mcall') and ty is not None and \
                    'other' not in ty:
                return None
            if op in ('attr', 'call', 'mcall') and not self.trusted(b) \
                    and (op == 'attr'):
                return None
            return [(st, App('attr', b, name))]
        return None

    def builtin_attr(self, b, o, name, st, n, fr):
        e = self.e
        if o.kind in ('list', 'set', 'dict', 'gen'):
            t = o.kind
            if o.kind == 'set' and o.cls == Ext('builtins.frozenset') and \
                    not hasattr(frozenset, name):
                return e.attr_error(b, name, st, n, fr)
            if t == 'gen' or hasattr(PYT[t], name) or name in o.attrs:
                if name in o.attrs:
                    return [(st, o.attrs[name])]
                return [(st, Native('bound', t, name, b))]
            return e.attr_error(b, name, st, n, fr)
        if o.kind == 'hasher':
            return [(st, Native('bound', 'hasher', name, b))]
        if o.kind == 'exc':
            if name in o.attrs:
                return [(st, o.attrs[name])]
            if name in ('with_traceback', '__traceback__', '__cause__',
                        '__context__', 'args', 'errno', 'strerror'):
                if name == 'with_traceback':
                    return [(st, Native('bound', 'exc', name, b))]
                return [(st, App('attr', e.freeze(b, st), name))]
            return e.attr_error(b, name, st, n, fr)
        if o.kind == 'ns':
            if name in o.attrs:
                return [(st, o.attrs[name])]
        if name in o.attrs:
            return [(st, o.attrs[name])]
        return [(st, App('attr', e.freeze(b, st), name))]

"""Rules about masks: sets of 256 bits kept as 32 bytes."""
import hashlib
from fractions import Fraction

from . import prop
from .common import *  # noqa: F401,F403
from .common import (
    App, C, Cls, FALSE, Fail, Many, NONE, NT, R, Ref, Sym, TRUE, Tup,
    Undecided, cat, is_exc, ops, show, subterms)
from ..dom import Ext, lin_of, mk_lin
from .data import MASK

OLD = App('input', 'MASK', 32)
N = Sym('N', ['int'])
BITS = 256


class Wrong(Exception):
    """The term describes other bits than it must"""


# A set of bits: for each region of the 256 bits, which of its bits are in
# the set. The regions are S, the bits set in the old mask, and F, the
# others. (kind, count, id): kind none, all, some (count of them, drawn by
# the sample id) or but (all but those).
NO, ALL = ('none',), ('all',)


def inverse(a):
    return {'none': ALL, 'all': NO}.get(a[0]) or (
        'but' if a[0] == 'some' else 'some',) + a[1:]


def meet(a, b):
    if NO in (a, b):
        return NO
    if a == ALL or a == b:
        return b
    if b == ALL:
        return a
    if a == inverse(b):
        return NO
    raise Wrong('the two parts may overlap by any number of bits')


def join(a, b):
    return inverse(meet(inverse(a), inverse(b)))


class Mapper:
    """Reads terms as sets of bits"""

    def __init__(self, w, order='big'):
        self.w = w
        self.order = order

    def unknown(self, t):
        raise Undecided('it is not known which bits %s stands for' % show(t))

    # ---------------------------------------------------------- numbers
    def is_number(self, t):
        """Is t the number the old mask stands for?"""
        return t == App('frombytes', C(self.order), OLD)

    def bit_test(self, k, v, bit):
        """Does this fact tell that the bit is set (True) or clear (False)
        in the old mask? None: it tells nothing."""
        if not isinstance(k, App):
            return None
        if k.op == 'eqlin':
            vec, const = k.args[0], k.args[1]
            items = list(vec.items()) if isinstance(vec, dict) else list(vec)
            if len(items) != 1:
                return None
            t, scale = items[0]
            number = Fraction(const) / Fraction(scale)
            one = self.one_bit(t, bit)
            if one is None:
                return None
            if number == 0:
                return not v
            if number == one and v:
                return True
            if number == one and one == 1:
                return False
            return None
        if k.op == 'eq':
            a, b = k.args
            for x, y in ((a, b), (b, a)):
                if isinstance(x, C) and x.v in ('0', '1') and \
                        self.is_digit(y, bit):
                    return (x.v == '1') is v
        return None

    def is_digit(self, t, bit):
        """Is t the binary digit of this bit?"""
        if not (isinstance(t, App) and t.op == 'item'):
            return False
        if not self.is_text(t.args[0]):
            return False
        i = lin_of(t.args[1])
        if i is None:
            return False
        return mk_lin(*i) in (
            mk_lin('num', {bit: Fraction(-1)}, Fraction(BITS - 1)),
            mk_lin('num', {bit: Fraction(-1)}, Fraction(-1)))

    def is_text(self, t):
        if not isinstance(t, App):
            return False
        if t.op == 'fmt':
            return str(getattr(t.args[0], 'v', t.args[0])) == '0256b' and \
                self.is_number(t.args[1])
        # bin(number)[2:] filled up with zeros
        if t.op == 'strop' and len(t.args) > 2 and t.args[2] == C(BITS) and (
                t.args[0] == C('zfill') or t.args[0] == C('rjust') and
                t.args[3:] == (C('0'),)):
            return self.is_short(t.args[1])
        return False

    def is_short(self, t):
        """The binary text without leading zeros"""
        if isinstance(t, App) and t.op == 'fmt':
            return t.args[0] in (C('b'), 'b') and self.is_number(t.args[1])
        return isinstance(t, App) and t.op == 'slc' and \
            t.args[1:] == (('s', 2), ('e', 0)) and \
            isinstance(t.args[0], App) and t.args[0].op == 'strop' and \
            t.args[0].args[0] == C('bin') and self.is_number(
                t.args[0].args[1])

    def other_bit(self, k, bit):
        """Does this fact test another bit than it should?"""
        for t in subterms(k):
            if isinstance(t, App) and t.op == 'bitand' and len(t.args) == 2:
                for x, y in (t.args, t.args[::-1]):
                    if isinstance(x, App) and x.op == 'frombytes' and \
                            x.args[1] == OLD and isinstance(y, App) and \
                            y.op == 'shl' and isinstance(y.args[0], C):
                        i = lin_of(y.args[1])
                        if i is not None and set(i[1]) <= {bit}:
                            raise Wrong('bit %s is looked up in %s' % (
                                show(bit), show(t)))

    def one_bit(self, t, bit):
        """1 or 2 if t is 0 where the bit is clear and, where it is set, 1
        (or some other number)"""
        if isinstance(t, App) and t.op == 'bitand':
            for x, y in (t.args, t.args[::-1]):
                if self.is_number(x) and y == App('shl', C(1), bit):
                    return 2
                if x == C(1) and isinstance(y, App) and \
                        y.op == 'rshift' and self.is_number(y.args[0]) and \
                        y.args[1] == bit:
                    return 1
        return None

    # ------------------------------------------------------------- sets
    def of_many(self, m):
        seq, val = m.seq, m.val
        if isinstance(seq, App) and seq.op in ('sorted', 'setof', 'tuple') \
                and val == App('elem', seq.args[0]):
            val = App('elem', seq)
        if self.is_text(seq):
            i = lin_of(val)
            idx = App('idx', seq)
            if i is not None and mk_lin(*i) == mk_lin(
                    'num', {idx: Fraction(-1)}, Fraction(BITS - 1)):
                known = None
                for k, v in m.conds:
                    if isinstance(k, App) and k.op == 'eq':
                        for x, y in (k.args, k.args[::-1]):
                            if isinstance(x, C) and x.v in ('0', '1') and \
                                    y == App('elem', seq):
                                known = (x.v == '1') is v
                if known is not None:
                    return (ALL, NO) if known else (NO, ALL)
            elif i is not None and set(i[1]) <= {idx}:
                raise Wrong('digit %s of the text is not that bit' % show(
                    val))
            self.unknown(m)
        if val != App('elem', seq):
            self.unknown(m)
        base = self.set(seq)
        for k, v in m.conds:
            known = self.bit_test(k, v, val)
            if known is None:
                if isinstance(k, App) and k.op in ('ty', 'iv', 'raises'):
                    continue
                self.other_bit(k, val)
                self.unknown(m)
            base = (meet(base[0], ALL if known else NO),
                    meet(base[1], NO if known else ALL))
        return base

    def set(self, t):
        """(part of S, part of F) of a set term"""
        if isinstance(t, Many):
            return self.of_many(t)
        if isinstance(t, Tup):
            t = App('list', *t.items)
        if not isinstance(t, App):
            self.unknown(t)
        if t.op == 'ints':
            lo, hi = t.args[0].v, t.args[1].v
            if (lo, hi) != (0, BITS):
                raise Wrong('the bits from %d to %d are used instead of all'
                            % (lo, hi - 1))
            return ALL, ALL
        if t.op in ('set', 'list'):
            items = list(t.args[0]) if t.op == 'set' else list(t.args)
            out = (NO, NO)
            for m in items:
                if not isinstance(m, Many):
                    self.unknown(t)
                b = self.of_many(m)
                out = join(out[0], b[0]), join(out[1], b[1])
            return out
        if t.op in ('setof', 'sorted', 'tuple'):
            return self.set(t.args[0])
        if t.op in ('setor', 'setand', 'setminus', 'setxor'):
            a, b = map(self.set, t.args)
            return tuple(self.combine(t.op, x, y) for x, y in zip(a, b))
        if t.op == 'sample':
            return self.drawn(t)
        if t.op == 'choices':
            raise Wrong('the same bit may be drawn twice')
        self.unknown(t)

    def combine(self, op, x, y):
        if op == 'setor':
            return join(x, y)
        if op == 'setand':
            return meet(x, y)
        if op == 'setminus':
            return meet(x, inverse(y))
        return join(meet(x, inverse(y)), meet(inverse(x), y))

    def drawn(self, t):
        base = self.set(t.args[0])
        k = t.args[1]
        if base == (ALL, NO):
            return ('some', k, t.args[2]), NO
        if base == (NO, ALL):
            return NO, ('some', k, t.args[2])
        if base == (ALL, ALL):
            if k == C(BITS):
                return ALL, ALL
            raise Wrong('bits are drawn from set and clear ones alike')
        self.unknown(t)

    # ---------------------------------------------------------- numbers
    def number(self, t):
        if t == C(0):
            return NO, NO
        if t == C(2 ** BITS - 1):
            return ALL, ALL
        if self.is_number(t):
            return ALL, NO
        if isinstance(t, App) and t.op == 'frombytes' and \
                t.args[1] == OLD:
            raise Wrong('the bytes are read in another order')
        if not isinstance(t, App):
            self.unknown(t)
        if t.op in ('reduce', 'sum'):
            f = Ext('operator.add') if t.op == 'sum' else t.args[0]
            out = (NO, NO)
            for x in t.args[1 if t.op == 'reduce' else 0:]:
                if isinstance(x, Many):
                    if not (isinstance(x.val, App) and x.val.op == 'shl'
                            and x.val.args[0] == C(1)):
                        self.unknown(t)
                    b = self.of_many(Many(x.seq, x.val.args[1], x.conds))
                else:
                    b = self.number(x)
                out = self.plus(f, out, b, t)
            return out
        if t.op == 'fold' and len(t.args) == 3:
            seq, init, body = t.args
            one = App('shl', C(1), App('elem', seq))
            acc = App('acc')
            if isinstance(body, frozenset):
                # elements in different cases are treated differently
                parts = [(c, x) for c, x in body if x != acc]
                if len(parts) != 1:
                    if parts:
                        self.unknown(t)
                    return self.number(init)
                conds, body = parts[0]
                b = self.of_many(Many(seq, App('elem', seq), conds))
            else:
                b = self.set(seq)
            a = self.number(init)
            if isinstance(body, App) and body.op in ('bitor', 'bitxor',
                                                     'bitand'):
                if set(body.args) == {acc, one}:
                    return self.plus({
                        'bitor': Ext('operator.or_'),
                        'bitxor': Ext('operator.xor')}.get(body.op), a, b, t)
                if body.op == 'bitand' and set(body.args) == {
                        acc, App('inv', one)}:
                    return tuple(self.combine('setminus', x, y)
                                 for x, y in zip(a, b))
            ln = lin_of(body)
            if ln is not None and ln[2] == 0 and ln[1] == {acc: 1, one: 1}:
                return self.plus(Ext('operator.add'), a, b, t)
            if ln is not None and ln[2] == 0 and ln[1] == {acc: 1, one: -1}:
                if any(meet(x, y) != y for x, y in zip(a, b)):
                    raise Wrong('bits are subtracted that may be clear')
                return tuple(self.combine('setminus', x, y)
                             for x, y in zip(a, b))
            self.unknown(t)
        if t.op in ('bitor', 'bitand', 'bitxor'):
            a, b = map(self.number, t.args)
            op = {'bitor': 'setor', 'bitand': 'setand',
                  'bitxor': 'setxor'}[t.op]
            return tuple(self.combine(op, x, y) for x, y in zip(a, b))
        self.unknown(t)

    def plus(self, f, a, b, t):
        name = f.name if isinstance(f, Ext) else ''
        if name == 'operator.or_':
            op = 'setor'
        elif name == 'operator.xor':
            op = 'setxor'
        elif name == 'operator.add':
            if any(meet(x, y) != NO for x, y in zip(a, b)):
                raise Wrong('bits are added that may be set')
            op = 'setor'
        elif name == 'operator.and_':
            op = 'setand'
        else:
            self.unknown(t)
        return tuple(self.combine(op, x, y) for x, y in zip(a, b))

    def bytes(self, t):
        if t == OLD:
            return ALL, NO
        if isinstance(t, C) and t.v == bytes(BITS // 8):
            return NO, NO
        if isinstance(t, C) and t.v == b'\xff' * (BITS // 8):
            return ALL, ALL
        if isinstance(t, C):
            raise Wrong('the mask becomes %s' % show(t))
        if isinstance(t, App) and t.op == 'pk':
            code, endian, x = (getattr(a, 'v', a) for a in t.args)
            if code != 'u%d' % (BITS // 8):
                raise Wrong('the mask becomes %s' % show(t))
            order = 'big' if endian == '>' else 'little'
            if order != self.order:
                raise Wrong('the bytes are written in another order than '
                            'they are read')
            return self.number(t.args[2])
        if isinstance(t, App) and t.op == 'tobytes' and any(
                isinstance(a, App) and a.op == 'bitlen'
                for a in subterms(t.args[1])):
            raise Wrong('the length of the mask depends on its bits')
        self.unknown(t)


# ----------------------------------------------------------------- counts

class Space:
    """All pairs (bits set in the old mask, requested number) a path is
    possible for"""
    LIMIT = 1200

    def __init__(self, w, o, mapper, n=N, fixed=None):
        self.unknown = []
        self.rules = []     # (n coefficient, s coefficient, lo, hi) or ne
        self.mapper = mapper
        self.n, self.fixed = n, fixed
        for vec, r in o.st.iv.items():
            c = self.coefs(vec)
            if c is None:
                continue
            lo, ls, hi, hs = r
            if lo is not None and ls:
                lo += Fraction(1, 2)
            if hi is not None and hs:
                hi -= Fraction(1, 2)
            self.rules.append(('in', c, lo, hi))
        for k, v in o.st.facts.items():
            if not isinstance(k, App):
                continue
            if k.op == 'eqlin':
                c = self.coefs(k.args[0])
                if c is None:
                    self.unknown.append(k)
                    continue
                self.rules.append(('eq' if v else 'ne', c,
                                   Fraction(k.args[1]), None))
            elif k.op in ('raises', 'forall', 'hasattr', 'ty', 'isinst'):
                if k.op == 'raises' and v and not self.known_raise(k):
                    self.unknown.append(k)
            else:
                self.unknown.append(k)

    def known_raise(self, k):
        t = k.args[1]
        return isinstance(t, App) and t.op in ('sample', 'pk', 'tobytes',
                                                'empty')

    def linear(self, t):
        """(coefficient of n, of s, constant) of a count, or None"""
        if self.fixed is None and t == self.n:
            return (Fraction(1), Fraction(0), Fraction(0))
        ln = lin_of(t)
        if ln is None or ln[0] != 'num':
            return None
        out = [Fraction(0), Fraction(0), Fraction(ln[2])]
        for k, c in ln[1].items():
            if k == self.n:
                out[0] += c
                continue
            one = self.size(k)
            if one is None:
                return None
            for i in range(3):
                out[i] += c * one[i]
        return tuple(out)

    def size(self, k):
        """Number of elements of a set, as (n, s, constant)"""
        if not (isinstance(k, App) and k.op == 'len'):
            return None
        try:
            a, b = self.mapper.set(k.args[0])
        except (Undecided, Wrong):
            return None
        out = [Fraction(0)] * 3
        for part, whole in ((a, (0, 1, 0)), (b, (0, -1, BITS))):
            one = self.part(part, whole)
            if one is None:
                return None
            out = [x + y for x, y in zip(out, one)]
        return tuple(out)

    def part(self, p, whole):
        whole = tuple(map(Fraction, whole))
        if p == NO:
            return (Fraction(0),) * 3
        if p == ALL:
            return whole
        k = self.linear(p[1])
        if k is None:
            return None
        if p[0] == 'some':
            return k
        return tuple(x - y for x, y in zip(whole, k))

    def coefs(self, vec):
        out = [Fraction(0)] * 3
        for t, c in (vec.items() if isinstance(vec, dict) else vec):
            one = self.linear(t)
            if one is None:
                return None
            for i in range(3):
                out[i] += Fraction(c) * one[i]
        return tuple(out)

    def possible(self, n, s):
        for kind, (a, b, c), lo, hi in self.rules:
            x = a * n + b * s + c
            if kind == 'in':
                if lo is not None and x < lo or hi is not None and x > hi:
                    return False
            elif (x == lo) is not (kind == 'eq'):
                return False
        return True

    def points(self, sizes):
        for s in sizes:
            # the path condition and what is compared are linear in n:
            # the ends of every piece and the numbers around them do
            ends = {-self.LIMIT, -1, 0, 1, 2, BITS, self.LIMIT}
            ends |= {BITS - s, s}
            for kind, (a, b, c), lo, hi in self.rules:
                for x in (lo, hi):
                    if x is not None and a:
                        ends.add(int((x - b * s - c) / a))
            near = {e + d for e in ends for d in (-1, 0, 1)}
            if self.fixed is not None:
                near = {self.fixed}
            for n in sorted(near):
                if self.possible(n, s):
                    yield n, s


@prop('C44')
def c44(x, w):
    x.rule('The methods of masks are run on a mask of 32 symbolic bytes '
           'and a symbolic number. The bytes of the mask afterwards are '
           'read as a set of bits made of the set and the clear bits of '
           'the old mask: all, none, so many of them, or all but so many. '
           'The counts are compared with the requested number for every '
           'number of set bits and every piece of the linear conditions of '
           'the path. The other forms must be the same number in big '
           'endian order, in base two with 256 digits, and the set of bits '
           'tested one by one.')
    x.assume('random.sample draws distinct elements of what it is given')
    e = w.e
    cls = w.cls(MASK)

    def mask():
        out = []
        for o in w.run(cls, [OLD], st=e.state(), implicit='all'):
            if not o.ok:
                w.fail(o, 'no mask can be made of 32 bytes')
            out.append((o.st, o.val))
        if not out:
            raise Undecided('no mask')
        return out

    def order():
        """byte order of to_int"""
        got = set()
        for st, m in mask():
            for o in w.call(m, 'to_int', [], st=st, implicit='all'):
                if not o.ok:
                    w.fail(o, 'a mask is no number')
                t = o.frozen()
                if not (isinstance(t, App) and t.op == 'frombytes' and
                        len(t.args) == 2 and t.args[1] == OLD):
                    if OLD not in set(subterms(t)):
                        w.fail(o, 'the number of a mask is %s' % show(t))
                    if isinstance(t, App) and t.op == 'frombytes':
                        w.fail(o, 'the number of a mask is %s' % show(t))
                    raise Undecided('the number is %s' % show(t))
                got.add(t.args[0].v)
        if len(got) != 1:
            raise Undecided('no single order')
        return got.pop()

    def ordered():
        if order() != 'big':
            raise Fail('masks are not read in big endian order')
    x.ob('number', ordered)

    def mapper():
        try:
            return Mapper(w, order())
        except (Fail, Undecided):
            return Mapper(w)

    def made():
        for o in w.run(cls, [], st=e.state(), implicit='all'):
            if not o.ok:
                w.fail(o, 'no mask can be made')
            for s, v in w.attr(o.val, 'byte_repr', o.st):
                if v != C(bytes(32)):
                    w.fail(o, 'a new mask is %s' % show(v))
        for st, m in mask():
            for s, v in w.attr(m, 'byte_repr', st):
                if v != OLD:
                    raise Fail('a mask made of bytes has %s' % show(v))
    x.ob('new', made)

    def same_bits(o, t):
        try:
            got = mapper().set(t)
        except Wrong as err:
            w.fail(o, 'the set of bits: %s' % err)
        if got != (ALL, NO):
            w.fail(o, 'the set of bits is %s' % show(t))

    def forms(name):
        n = 0
        for st, m in mask():
            for o in w.call(m, name, [], st=st, implicit='all'):
                if not o.ok:
                    if made_up(o):
                        continue
                    w.fail(o, 'a mask has no such form')
                n += 1
                t = o.frozen()
                if name == 'to_bits':
                    same_bits(o, t)
                elif name == 'to_bytes':
                    if t != OLD:
                        w.fail(o, 'the bytes are %s' % show(t))
                elif name == 'to_bin':
                    mp = mapper()
                    if mp.is_text(t):
                        continue
                    if mp.is_short(t) or isinstance(
                            t, App) and t.op == 'fmt' and mp.is_number(
                            t.args[-1]) or not ops(t, 'frombytes') and \
                            OLD not in set(subterms(t)):
                        w.fail(o, 'the binary text is %s' % show(t))
                    raise Undecided('the binary text is %s' % show(t))
                for s, v in w.attr(m, 'byte_repr', o.st):
                    if v != OLD:
                        w.fail(o, 'reading changes the mask to %s' % show(v))
        if not n:
            raise Fail('there is never such a form')

    def made_up(o):
        """Only possible if an index or a shift can fail that cannot"""
        for k, v in o.st.facts.items():
            if v is True and isinstance(k, App) and k.op == 'raises':
                t = k.args[1]
                if isinstance(t, App) and t.op == 'item' and \
                        mapper().is_digit(t, App('elem', App(
                            'ints', C(0), C(BITS)))):
                    return True
        return False
    for name in ('to_bits', 'to_bytes', 'to_bin'):
        x.ob(name, forms, name)

    def number_of_bits():
        for st, m in mask():
            n = 0
            for s, v in w.attr(m, 'num_bits', st):
                n += 1
                v = e.freeze(v, s)
                if isinstance(v, App) and v.op == 'len':
                    try:
                        got = mapper().set(v.args[0])
                    except Wrong as err:
                        raise Fail('the number of bits: %s' % err)
                    if got == (ALL, NO):
                        continue
                    raise Fail('the number of bits is %s' % show(v))
                if isinstance(v, App) and v.op in ('strop', 'mcall') and \
                        mapper().is_text(v.args[1] if v.op == 'strop'
                                         else v.args[0]) and \
                        'count' in [getattr(a, 'v', a) for a in v.args] and \
                        '1' in [getattr(a, 'v', a) for a in v.args]:
                    continue
                if OLD not in set(subterms(v)):
                    raise Fail('the number of bits is %s' % show(v))
                raise Undecided('the number of bits is %s' % show(v))
            if not n:
                raise Fail('there is no number of bits')
    x.ob('num_bits', number_of_bits)

    def rebuilt():
        """from_bits: exactly the bits given"""
        given = Many(App('ints', C(0), C(BITS)), App('elem', App(
            'ints', C(0), C(BITS))), frozenset())
        st, m = mask()[0]
        n = 0
        for o in w.call(m, 'to_bits', [], st=st, implicit='all'):
            if not o.ok:
                continue
            for o2 in w.call(cls, 'from_bits', [o.val], st=o.st,
                             implicit='all'):
                if not o2.ok:
                    if not fits(o2):
                        w.fail(o2, 'no mask is made of the bits of one')
                    continue
                for s, v in w.attr(o2.val, 'byte_repr', o2.st):
                    n += 1
                    try:
                        got = mapper().bytes(e.freeze(v, s))
                    except Wrong as err:
                        w.fail(o2, 'a mask made of bits: %s' % err)
                    if got != (ALL, NO):
                        w.fail(o2, 'a mask made of the bits of another is '
                               '%s' % show(e.freeze(v, s)))
        if not n:
            raise Fail('no mask is made of bits')

    def fits(o):
        """Does this path need numbers below 2**256 to overflow?"""
        for k, v in o.st.facts.items():
            if v is True and isinstance(k, App) and k.op == 'raises' and \
                    isinstance(k.args[1], App):
                if k.args[1].op == 'pk':
                    mapper().bytes(k.args[1])
                    return True
        return False
    x.ob('from_bits', rebuilt)

    def judge(o, before, after, want, sizes, what, n=N, fixed=None):
        """want(n, s) -> (bits of S afterwards, bits of F afterwards), or
        None if it must be refused"""
        mp = mapper()
        sp = Space(w, o, mp, n, fixed)
        parts = counts = None
        if o.ok:
            try:
                parts = mp.bytes(after)
            except Wrong as err:
                pt = next(sp.points(sizes), None)
                if pt is None:
                    return 0
                w.fail(o, '%s: %s' % (what, err))
            counts = [sp.part(parts[0], (0, 1, 0)),
                      sp.part(parts[1], (0, -1, BITS))]
            if None in counts:
                raise Undecided('how many bits change is not known: %s'
                                % show(after))
        checked = 0
        for pn, ps in sp.points(sizes):
            checked += 1
            expected = want(pn, ps)
            told = 'with %d set bits and %d requested' % (ps, pn)
            if not o.ok:
                if expected is None:
                    if not e.exc_sub(o.exc_cls, e.exc_class('ValueError')):
                        w.fail(o, '%s raises %s' % (what, o.exc_name))
                    continue
                if self_contradicting(sp, o, mp, pn, ps):
                    continue
                if sp.unknown:
                    raise Undecided('%s fails %s: %s' % (what, told,
                                                         w.describe(o)))
                w.fail(o, '%s fails %s' % (what, told))
            got = tuple(c[0] * pn + c[1] * ps + c[2] for c in counts)
            if expected is None:
                if sp.unknown:
                    raise Undecided('%s is not refused %s' % (what, told))
                w.fail(o, '%s is not refused %s' % (what, told))
            if got != expected:
                why = '%s %s leaves %d of the set bits and sets %d others' \
                    ' instead of %d and %d' % (
                        what, told, got[0], got[1], *expected)
                if sp.unknown:
                    raise Undecided(why)
                w.fail(o, why)
        return checked

    def self_contradicting(sp, o, mp, pn, ps):
        """Does the path need a failure that is not possible?"""
        for k, v in o.st.facts.items():
            if v is not True or not isinstance(k, App) or k.op != 'raises':
                continue
            t = k.args[1]
            if isinstance(t, App) and t.op == 'sample':
                ln = sp.linear(t.args[1])
                size = sp.size(App('len', t.args[0]))
                if ln is None or size is None:
                    continue
                num = ln[0] * pn + ln[1] * ps + ln[2]
                of = size[0] * pn + size[1] * ps + size[2]
                if 0 <= num <= of:
                    return True
            if isinstance(t, App) and t.op == 'empty':
                size = sp.size(App('len', App('list', *t.args)))
                if size is not None and size[0] * pn + size[1] * ps + \
                        size[2] > 0:
                    return True
            if isinstance(t, App) and t.op in ('pk', 'tobytes'):
                try:
                    mp.bytes(t)
                    return True
                except (Wrong, Undecided):
                    pass
        return False

    def change(name, want, args, fixed=None):
        checked = 0
        for st, m in mask():
            for o in w.call(m, name, args, st=st, implicit='all'):
                for s, after in w.attr(m, 'byte_repr', o.st):
                    after = e.freeze(after, s)
                    if not o.ok and after != OLD:
                        w.fail(o, 'a refused request changes the mask to %s'
                               % show(after))
                    checked += judge(o, OLD, after, want, range(BITS + 1),
                                     name, fixed=fixed)
        if not checked:
            raise Undecided('nothing was compared')
        return '%d points' % checked

    def more(n, s):
        return None if n < 0 else (s, min(n, BITS - s))

    def fewer(n, s):
        return None if n < 0 else (s - min(n, s), 0)
    x.ob('increase', change, 'increase', more, [N])
    x.ob('decrease', change, 'decrease', fewer, [N])
    x.ob('increase/one', change, 'increase', more, [], 1)
    x.ob('decrease/one', change, 'decrease', fewer, [], 1)

    def generate(args, fixed=None):
        checked = 0
        for o in w.call(cls, 'generate', args, st=e.state(),
                        implicit='all'):
            after = None
            if o.ok:
                if not isinstance(o.val, Ref) or e.o(
                        o.val, o.st).cls != cls:
                    w.fail(o, 'no mask is generated')
                for s, after in w.attr(o.val, 'byte_repr', o.st):
                    after = e.freeze(after, s)
                    checked += judge_new(o, after, fixed)
            else:
                checked += judge_new(o, None, fixed)
        if not checked:
            raise Undecided('nothing was compared')
        return '%d points' % checked

    class Fresh(Mapper):
        """No old mask: all bits are clear"""

        def drawn(self, t):
            base = self.set(t.args[0])
            if base[1] != ALL:
                self.unknown(t)
            return NO, ('some', t.args[1], t.args[2])

    def judge_new(o, after, fixed):
        nonlocal mapper
        saved = mapper
        fresh = Fresh(w, saved().order)
        mapper = lambda: fresh   # noqa: E731
        try:
            return judge(o, None, after, more, [0], 'generate', fixed=fixed)
        finally:
            mapper = saved
    x.ob('generate', generate, [N])
    x.ob('generate/none', generate, [], 0)

    def constants(st):
        out = {}
        for k in ('ALL_BITS', 'MASK_LEN', 'MASK_BYTES'):
            for s, v in w.attr(cls, k, st):
                out[k] = e.freeze(v, s)
        return out

    def unchanged(name, args):
        """What all masks share stays as it is"""
        try:
            first = constants(e.state())
        except Fail as err:
            raise Undecided(str(err))
        n = 0
        for st, m in mask():
            for o in w.call(m, name, args, st=st, implicit='all'):
                n += 1
                for k, v in constants(o.st).items():
                    if v != first[k]:
                        w.fail(o, '%s changes %s of all masks' % (name, k))
        return '%d paths' % n
    for name, args in (('increase', [N]), ('decrease', [N]),
                       ('generate', [N]), ('to_bits', []),
                       ('matches', [Sym('ADDR', ['bytes'])])):
        x.ob('shared/' + name, unchanged, name, args)


def fixed_cases():
    """masks with one bit or two, and addresses whose hashes start with
    different numbers of zero bits"""
    zeros = {}
    for i in range(1000):
        data = b'worker%d' % i
        h = int.from_bytes(hashlib.sha256(data).digest(), 'big')
        zeros.setdefault(256 - h.bit_length(), data)
    for z in (0, 1, 4, 8):
        if z not in zeros:
            continue
        data = zeros[z]
        h = int.from_bytes(hashlib.sha256(data).digest(), 'big')
        ones = [i for i in range(256) if h >> i & 1]
        none = [i for i in range(256) if not h >> i & 1]
        for bits in ([ones[-1]], [ones[0]], [none[-1]], [none[0]],
                     [ones[len(ones) // 2], none[0]], none):
            yield sum(1 << i for i in bits).to_bytes(32, 'big'), data


@prop('C58')
def c58(x, w):
    x.rule('Mask.matches is run on a symbolic mask and a symbolic address: '
           'the result must be that the bits of the mask and of the '
           'SHA-256 hash of the address, read in the same order, have '
           'nothing in common.')
    e = w.e
    addr = Sym('ADDR', ['bytes'])

    def matches():
        n = 0
        for o in w.run(w.cls(MASK), [OLD], st=e.state()):
            for o2 in w.call(o.val, 'matches', [addr], st=o.st,
                             implicit='all'):
                if not o2.ok:
                    w.fail(o2, 'an address can not be compared')
                for o3s, truth in e.truth(o2.val, o2.st):
                    n += 1
                    judge(o2, o3s, truth)
        if not n:
            raise Undecided('no outcome')

    def judge(o, st, truth):
        h = App('sha256', addr)
        known = None
        seen = []
        for k, v in st.facts.items():
            if not (isinstance(k, App) and k.op == 'eqlin'):
                continue
            items = list(k.args[0])
            seen.extend(t for t, _ in items)
            if len(items) != 1:
                continue
            t, scale = items[0]
            if not (isinstance(t, App) and t.op == 'bitand'):
                continue
            for order in ('big', 'little'):
                a = App('frombytes', C(order), OLD)
                b = App('frombytes', C(order), h)
                if set(t.args) == {a, b} and k.args[1] == 0:
                    known = v
        if known is truth:
            return
        if known is not None:
            w.fail(o, 'an address with%s masked bit in its hash is %s' % (
                'out a' if known else ' a', 'matched' if truth else
                'not matched'))
        why = 'an address is %s if %s' % (
            'matched' if truth else 'not matched', w.describe(o))
        plain = {'bitand', 'bitor', 'bitxor', 'frombytes', 'input',
                 'sha256', 'sha1', 'sha3_256', 'keccak256', 'lin', 'slc'}
        if seen and all(t.op in plain for s in seen for t in subterms(s)
                        if isinstance(t, App)):
            w.fail(o, why)
        if not seen and not st.facts:
            w.fail(o, why)
        raise Undecided(why)
    x.ob('matches', matches)

    def fixed(mask, data):
        """a given mask and a given address: bits are read in one order"""
        h = hashlib.sha256(data).digest()
        want = {not int.from_bytes(h, order) & int.from_bytes(mask, order)
                for order in ('big', 'little')}
        n = 0
        for o in w.run(w.cls(MASK), [C(mask)], st=e.state()):
            for o2 in w.call(o.val, 'matches', [C(data)], st=o.st,
                             implicit='all'):
                if not o2.ok:
                    w.fail(o2, 'an address can not be compared')
                for s, truth in e.truth(o2.val, o2.st):
                    n += 1
                    if truth not in want:
                        w.fail(o2, 'the address %r with hash %s is %s by the'
                               ' mask %s' % (
                                   data, h.hex(), 'matched' if truth
                                   else 'not matched', mask.hex()))
        if not n:
            raise Undecided('no outcome')
    for k, (mask, data) in enumerate(fixed_cases()):
        x.ob('fixed/%02d' % k, fixed, mask, data)

    def empty():
        for o in w.run(w.cls(MASK), [], st=e.state()):
            for o2 in w.call(o.val, 'matches', [addr], st=o.st,
                             implicit='all'):
                if not o2.ok:
                    w.fail(o2, 'an address can not be compared')
                if w.truthy(o2.st, o2.val) == {False}:
                    w.fail(o2, 'an empty mask excludes an address')
                if w.truthy(o2.st, o2.val) != {True}:
                    raise Undecided('an empty mask gives %s' % show(
                        o2.frozen()))
    x.ob('empty', empty)

    def nobody():
        """no workers: nobody is excluded"""
        for p in (0, -1):
            n = 0
            for o in w.call(w.cls(MASK), 'get_mask_for_task', [
                    Sym('D', ['int']), C(p)], st=e.state(),
                    implicit='all'):
                if not o.ok:
                    w.fail(o, 'no mask without potential workers')
                for s, v in w.attr(o.val, 'byte_repr', o.st):
                    n += 1
                    if v != C(bytes(32)):
                        w.fail(o, 'the mask without potential workers is '
                               '%s' % show(v))
            if not n:
                raise Undecided('no mask')
    x.ob('nobody', nobody)

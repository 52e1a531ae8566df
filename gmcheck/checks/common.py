"""Questions several rules ask."""
from ..dom import (
    App, Bound, C, Cls, EnumM, Fn, Many, NONE, NT, Phi, Prop, Ref, Sym, Tup,
    TRUE, FALSE, Val, cat, show)
from ..engine import AnalysisError, contains
from ..report import Fail, Undecided
from .. import reference as R

HDR_RESERVED = ('header', 'sig')


def subterms(v):
    """All terms inside v, outermost first"""
    stack = [v]
    while stack:
        x = stack.pop()
        if isinstance(x, Val):
            yield x
            stack.extend(reversed(x.k))
        elif isinstance(x, (tuple, frozenset)):
            stack.extend(x)


def ops(v, op):
    return [t for t in subterms(v) if isinstance(t, App) and t.op == op]


def verified(st):
    """Signatures this state knows to be good: [(key, sig, digest)].

    Known from an equality between a 0x04-prefixed key and the uncompressed
    form of the key recovered from the signature over the digest."""
    out = []
    for atom, val in st.facts.items():
        if val is not True or not isinstance(atom, App) or atom.op != 'eq':
            continue
        for a, b in (atom.args, atom.args[::-1]):
            if not (isinstance(b, App) and b.op == 'point'):
                continue
            rec = b.args[0]
            if isinstance(rec, App) and rec.op == 'recover':
                out.append((a, rec.args[0], rec.args[1]))
    return equals(st, out) if out else out


def equals(st, found):
    """... and what is known to be equal to them"""
    pairs = [k.args for k, v in st.facts.items() if v is True
             and isinstance(k, App) and k.op == 'eq']
    pairs += [(a.args[0], b.args[0]) for a, b in pairs
              if isinstance(a, App) and isinstance(b, App)
              and a.op == b.op == 'bytesof']

    def same(t):
        got, todo = [t], [t]
        while todo:
            x = todo.pop()
            for a, b in pairs:
                for y, z in ((a, b), (b, a)):
                    if y == x and z not in got and not (
                            isinstance(z, App) and z.op == 'point'):
                        got.append(z)
                        todo.append(z)
        return got
    return list(dict.fromkeys(
        (k2, s2, d2) for k, s, d in found
        for k2 in same(k) for s2 in same(s) for d2 in same(d)))


def signed_content(digest):
    """(parts of the hashed message) below sha3_256(sha1(...)) etc."""
    return digest


def chain(w, q, name, st, skip=(), opaque=True, attrs=None):
    """An open message of kind q whose nested messages are open messages"""
    a = {}
    for slot, (k, none, lst) in R.NESTED_FIELDS.get(q, {}).items():
        if slot in skip:
            a[slot] = NONE
            continue
        x = chain(w, k, name + '.' + slot, st, opaque=opaque)
        a[slot] = w.e.new_list(st, [x]) if lst else x
    a.update(attrs or {})
    return w.open_msg(w.cls(q), name, st, attrs=a, opaque=opaque)


def nested_any(w, q, name, st, depth=3):
    """As chain, every combination of allowed absences of the top level:
    yields (skip, state, ref)"""
    opt = [s for s, (k, none, lst) in R.NESTED_FIELDS.get(q, {}).items()
           if none]
    for bits in range(2 ** len(opt)):
        skip = tuple(s for i, s in enumerate(opt) if bits >> i & 1)
        s = st.fork()
        yield skip, s, chain(w, q, name, s, skip=skip)


def one_field(w, num, field, value, st=None, header=None, sig=None, **kw):
    """Outcomes of making a message whose received content names exactly one
    field with the given abstract value."""
    st = st or w.e.state()
    src = w.e.new_list(st, [Tup(C(field), value)])
    a = {}
    if sig is not None:
        a['sig'] = sig
    return w.build(num, src, st=st, header=header, **a, **kw)


def oks(outs, what='success path'):
    r = [o for o in outs if o.ok]
    if not r:
        raise Fail('no %s: %s' % (what, sorted({
            '%s at %s' % (o.exc_name, o.where) for o in outs})[:6]))
    return r


def is_exc(w, o, name):
    return not o.ok and w.sub(o.exc_cls, w.exc(name))


def field_error(w, o, field=None, value=None):
    """Is this outcome a field error (naming field, carrying value)?"""
    if o.ok or not w.sub(o.exc_cls, w.exc('FieldError')):
        return False
    if field is not None and o.exc.attrs.get('field') != C(field):
        return False
    if value is not None and w.e.freeze(
            o.exc.attrs.get('value'), o.st) != value:
        return False
    return True


def member(w, enumq, name):
    cls = w.cls(enumq)
    m = w.e.classes[cls.k[0]].members
    return m.get(name)


def public_attr(w, cls, name):
    r = w.e.cls_lookup(cls, name, w.e.state())
    if r is None:
        raise Fail('%s has no %s' % (w.name(cls), name))
    return r[1]


def plain(v):
    """Python value of a constant abstract value"""
    if isinstance(v, C):
        return v.v
    if isinstance(v, Tup):
        return tuple(plain(i) for i in v.items)
    raise Undecided('not a constant: %s' % show(v))


def blamed(w, o, ids, rid):
    """A field error on this path names one of the ids: is it one that fits
    the requestor?"""
    if o.ok or not is_exc(w, o, 'FieldError'):
        return
    f = w.e.freeze(o.exc.attrs.get('field', NONE), o.st)
    val = ids.get(f.v) if isinstance(f, C) else None
    if val is None:
        return
    again = w.run('idgenerator:check_id_hex_seed', [val, rid], st=o.st)
    if again and all(a.ok and w.truthy(a.st, a.val) == {True}
                     for a in again):
        w.fail(o, 'the field error names %s, which belongs to the requestor'
               % f.v)

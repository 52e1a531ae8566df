"""What an earlier call may have left behind.

An operation that changes an object which outlives it (a module, a class, a
memo) is analysed a second time, in the state the first call left: with one
input of the earlier call renamed to a different one, everything else equal.
A correct memo is silent under this (its key differs, or the value does not
depend on what differs); a stale one is not.
"""
import ast

from .dom import (
    App, C, Obj, Ref, State, Sym, Tup, Val, is_now, mk_lin, show, vec_of)

NOTHING, SHARED, ALL = range(3)
FIXED = ('own_version', 'tzoffset')


def is_leaf(t):
    if isinstance(t, Sym):
        return t.k[0] not in FIXED
    return isinstance(t, App) and t.op == 'input'


def subterms(v):
    stack, seen = [v], set()
    while stack:
        x = stack.pop()
        if isinstance(x, Val):
            if isinstance(x, (Sym, App)):
                if x in seen:
                    continue
                seen.add(x)
            yield x
            stack.extend(x.k)
        elif isinstance(x, (tuple, frozenset)):
            stack.extend(x)


def leaves(vals):
    out = {}
    for v in vals:
        for t in subterms(v):
            if is_leaf(t):
                out[t] = True
            elif isinstance(t, App) and t.op == 'obj' and \
                    isinstance(t.args[0], str):
                out[t] = True
    return list(out)


def of_past(v):
    """Does this depend on what differed in the earlier call?"""
    return any(x.k[0 if isinstance(x, Sym) else 1] in ('earlier',) or
               str(x.k[0 if isinstance(x, Sym) else 1]).startswith('other ')
               for x in leaves([v]))


def origins(v):
    """Inputs, clock readings and random choices a value depends on"""
    return leaves([v]) + [t for t in subterms(v) if isinstance(t, App)
                          and t.op == 'fresh']


def impure(e, o, st):
    """Does a memo hold a value its key does not determine?"""
    for x in o.data:
        if not isinstance(x, tuple):
            continue
        k, v = x
        v, k = e.freeze(v, st), e.freeze(k, st)
        if not set(origins(v)) <= set(origins(k)):
            return True
    return False


def changed(e, st):
    """Addresses of lasting objects this state has other contents for"""
    out = []
    for a, o in st.heap.items():
        old = e.base.get(a)
        if old is not None:
            if o is not old and not o.same(old):
                out.append(a)
        elif isinstance(a, tuple) and a and a[0] == 'fnattrs':
            out.append(a)
        elif isinstance(a, tuple) and a and a[0] == 'cache':
            if impure(e, o, st):
                out.append(a)
    return out


def content(o):
    yield from o.attrs.values()
    for x in o.data:
        if isinstance(x, tuple):
            yield from x
        else:
            yield x
    if isinstance(o.src, Val):
        yield o.src


HEAD = ('.sig', '.ts', '.enc', '.type')


class Rename:
    """Renames one input, and the addresses of what the call made"""

    def __init__(self, e, leaf, heap, named):
        self.e, self.leaf = e, leaf
        self.objs = set()
        if isinstance(leaf, App) and leaf.op == 'obj':
            self.objs.add(leaf.args[0])
        for key, name in named.items():
            if leaf in leaves([key]):
                self.objs.add(name)
        self.moved = {a for a in heap if a not in e.base and not (
            isinstance(a, tuple) and a and a[0] in ('cache', 'fnattrs'))}
        self.memo = {}

    def ours(self, name):
        if name in self.objs:
            return True
        return any(name.startswith(o + '.') and
                   name[len(o):] not in HEAD for o in self.objs)

    def addr(self, a):
        return ('old', a) if a in self.moved else a

    def val(self, v):
        if isinstance(v, C):
            return v
        if isinstance(v, Ref):
            return Ref(self.addr(v.addr))
        if isinstance(v, (Sym, App)):
            r = self.memo.get(v)
            if r is None:
                r = self.memo[v] = self.term(v)
            return r
        if isinstance(v, Val):
            return type(v)(*[self.val(x) for x in v.k])
        if isinstance(v, tuple):
            return tuple(self.val(x) for x in v)
        if isinstance(v, frozenset):
            return frozenset(self.val(x) for x in v)
        return v

    def term(self, v):
        if isinstance(v, Sym):
            if v == self.leaf and is_now(v):
                return Sym('earlier', *v.k[1:])
            if v == self.leaf or self.ours(v.k[0]):
                return Sym('other ' + v.k[0], *v.k[1:])
            return v
        if v.op == 'input' and v == self.leaf or v.op == 'obj' and \
                isinstance(v.args[0], str) and self.ours(v.args[0]):
            return App(v.op, 'other ' + v.args[0], *v.args[1:])
        if v.op == 'lin':
            return mk_lin(v.args[0], {self.val(t): c for t, c in v.args[1]},
                          v.args[2])
        return App(*[self.val(x) for x in v.k])

    def object(self, o):
        src = o.src
        if isinstance(src, Val):
            src = self.val(src)
        elif isinstance(src, str) and self.ours(src):
            src = 'other ' + src
        return Obj(o.kind, o.cls, {k: self.val(v)
                                   for k, v in o.attrs.items()},
                   self.val(o.data), src, self.val(o.gone))


def frozen_content(e, st, addrs):
    return tuple((a, tuple(e.freeze(x, st) for x in content(st.heap[a])
                           if isinstance(x, Val))) for a in addrs)


def choices(found):
    """What can differ on its own: an object with opaque content differs as
    a whole"""
    objs = {t.args[0] for t in found if isinstance(t, App)
            and t.op == 'obj'}
    return [t for t in found if not (
        isinstance(t, Sym) and any(
            t.k[0].startswith(o + '.') and t.k[0][len(o):] not in HEAD
            for o in objs))]


def scenarios(e, traces, limit, each):
    """(renamed input, state) of the earlier calls worth looking at"""
    n, seen = 0, set()
    for k, st, addrs in traces:
        diff = []
        for a in addrs:
            old = e.base.get(a)
            before = set(leaves(content(old))) if old is not None else set()
            diff.extend(x for x in leaves(
                [e.freeze(x, st) for x in content(st.heap[a])
                 if isinstance(x, Val)]) if x not in before)
        rest = [x for x in leaves(st.facts) if x not in diff]
        # what the stored value says nothing about first
        sig = frozen_content(e, st, addrs)
        done = 0
        for x in choices(rest + diff):
            if done >= each or n >= limit:
                break
            if (sig, x) in seen:
                continue
            seen.add((sig, x))
            done += 1
            n += 1
            yield x, k, st, addrs


def earlier(e, leaf, st, addrs, named, known):
    """The state an earlier call with another `leaf` has left; known: how much
    of what it established"""
    r = Rename(e, leaf, st.heap, named)
    heap = {r.addr(a): r.object(o) for a, o in st.heap.items()
            if a in addrs or not (isinstance(a, tuple) and a
                                  and a[0] == 'cache')}
    iv = {}
    for vec, v in st.iv.items():
        new = r.val(vec)
        if new != vec and len(vec) > 1:
            norm, scale = vec_of(dict(new))
            if scale != 1 or norm != new:
                continue
        iv[new] = v
    facts = {}
    if known == SHARED:
        facts = {k: v for k, v in st.facts.items()
                 if r.val(k) is k or r.val(k) == k}
    elif known == ALL:
        facts = {r.val(k): r.val(v) if isinstance(v, Val) else v
                 for k, v in st.facts.items()}
    out = State(heap, facts, {r.val(k): v for k, v in st.ty.items()},
                iv if known == ALL else {})
    for op in ('slots', 'plain', 'obj'):
        for o in r.objs:
            a, b = App('obj', o), App('obj', 'other ' + o)
            if op != 'obj':
                a, b = App(op, a), App(op, b)
            out = differ(e, a, b, out)
    if not r.objs or leaf.op != 'obj' if isinstance(leaf, App) else True:
        if is_now(leaf):
            for s, v in e.compare(ast.LtE(), r.val(leaf), leaf, out, None,
                                  None):
                if v is True:
                    out = s
                    break
        else:
            out = differ(e, leaf, r.val(leaf), out)
    return r, out


def differ(e, a, b, st):
    for s, v in e.eq(a, b, st):
        if v is False:
            return s
    return st


def replace(v, a, b):
    if v == a:
        return b
    if isinstance(v, C):
        return v
    if isinstance(v, Val):
        k = [replace(x, a, b) if isinstance(x, (Val, tuple, frozenset))
             else x for x in v.k]
        return v if all(x is y for x, y in zip(k, v.k)) else type(v)(*k)
    if isinstance(v, tuple):
        k = tuple(replace(x, a, b) for x in v)
        return v if all(x is y for x, y in zip(k, v)) else k
    if isinstance(v, frozenset):
        return frozenset(replace(x, a, b) for x in v)
    return v


def unify(st, a, b):
    """Something from the earlier call is supposed to equal something of this
    one: what is known about the former holds for the latter"""
    if not of_past(a):
        a, b = b, a
    if not of_past(a) or of_past(b):
        return
    for k, v in list(st.facts.items()):
        if isinstance(k, App) and k.op == 'eq' and set(k.args) == {a, b}:
            continue
        k2 = replace(k, a, b)
        if k2 is not k:
            if isinstance(k2, App) and k2.op == 'eq':
                x, y = k2.args
                if show(y) < show(x):
                    k2 = App('eq', y, x)
            st.facts.setdefault(k2, replace(v, a, b)
                                if isinstance(v, Val) else v)


def recall(v, k, key):
    """A value found under a key of an earlier call, in the terms of the
    equal key of this one"""
    if not isinstance(v, Val) or isinstance(v, Ref) or k == key or \
            not of_past(k):
        return v
    if isinstance(k, Tup) and isinstance(key, Tup) and \
            len(k.items) == len(key.items):
        for a, b in zip(k.items, key.items):
            v = recall(v, a, b)
        return v
    return v if of_past(key) else replace(v, k, key)

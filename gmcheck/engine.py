"""The abstract interpreter.

It walks the syntax tree of the repository's functions over abstract states
(dom.State).  Control flow that depends on something unknown splits the state
(trace partitioning); each part carries the facts that select it.  Loops over
collections of unknown size are analysed once for a generic element and
summarised; joins keep the number of partitions bounded.  No code of the
repository is executed and no constraint solver is involved: a condition is
decided by the type-set domain, the interval domain, or the facts already
assumed, and is otherwise unknown.
"""
import ast
import builtins
import os
import time
from fractions import Fraction

from .dom import (
    App, Bound, C, CM, Cached, Cls, EnumM, Ext, FALSE, FIXED_LEN, Fn, Many,
    Mod, NONE, NOW, NT, NUM, Native, Obj, Partial, Phi, Prop, Ref, SIZED, SM,
    State, Super, Sym, TRUE, Tup, UNIVERSE, Val, cat, lin_add, lin_of,
    mk_lin, mk_slc, pk_size, show, vec_of)
from . import history, models

MAXDEPTH = 70
PKG = 'golem_messages'
ETHSIGN = [C(i) for i in ('v', 'r', 's', 'messageHash', 'signature')]


class AnalysisError(Exception):
    """The analysis cannot find what it is about."""


class Budget(Exception):
    """This question takes more time than it is given."""


class Eager(Exception):
    """This generator has to be run to its end before it is consumed."""


class FuncInfo:
    __slots__ = ('id', 'node', 'mod', 'qual', 'cls', 'is_gen', 'file')

    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)


class ClassInfo:
    __slots__ = ('id', 'name', 'qual', 'mod', 'bases', 'mro', 'node', 'enum',
                 'members', 'ntfields', 'file', 'slots_closed',
                 'own_slots')

    def __init__(self, **kw):
        for k in self.__slots__:
            setattr(self, k, kw.get(k))
        self.own_slots = frozenset()


class Frame:
    __slots__ = ('addr', 'mod', 'fn', 'parents', 'cls', 'file', 'ns')

    def __init__(self, addr, mod, fn, parents, cls, file, ns=False):
        self.addr, self.mod, self.fn = addr, mod, fn
        self.parents, self.cls, self.file, self.ns = parents, cls, file, ns


BUILTIN_EXC = {n: getattr(builtins, n) for n in dir(builtins)
               if isinstance(getattr(builtins, n), type)
               and issubclass(getattr(builtins, n), BaseException)}

TYPESETS = {
    'int': {'int', 'bool'}, 'bool': {'bool'}, 'float': {'float'},
    'str': {'str'}, 'bytes': {'bytes'}, 'bytearray': {'bytearray'},
    'list': {'list'}, 'tuple': {'tuple'}, 'dict': {'dict'},
    'set': {'set'}, 'frozenset': {'set'}, 'NoneType': {'None'},
}


def yielding(n):
    return any(isinstance(x, (ast.Yield, ast.YieldFrom))
               for x in ast.walk(n))


def refers(v):
    """Does a value mention heap objects?"""
    if isinstance(v, (Ref, Fn)):
        return True
    if isinstance(v, (C, Sym)):
        return False
    if isinstance(v, Val):
        r = REFERS.get(v)
        if r is None:
            r = REFERS[v] = any(refers(x) for x in v.k)
        return r
    if isinstance(v, (tuple, frozenset)):
        return any(refers(x) for x in v)
    return False


MENTIONS = {}
REFERS = {}


def mentions(v, names):
    """Does a term use one of these operations?"""
    if isinstance(v, Val):
        r = MENTIONS.get(v)
        if r is None:
            r = isinstance(v, App) and v.op in names or any(
                mentions(x, names) for x in v.k)
            MENTIONS[v] = r
        return r
    if isinstance(v, (tuple, frozenset)):
        return any(mentions(x, names) for x in v)
    return False


class Engine:
    def __init__(self, root='/repo', init=True, opts=None):
        self.root = root
        self.opts = dict(opts or {})
        self.clock = NOW
        self.base = {}
        self.classes = []
        self.funcs = []
        self.counter = 0
        self.sink = []
        self.thunks = {}
        self.kept = {}
        self.gaps = []
        self.yields = {}
        self.tries = []
        self.implicit_mode = 'try'
        self.depth = 0
        self.callstack = []
        self.imprecise = []
        self.seen_funcs = set()
        self.mods = {}          # module name -> frame address
        self.modfile = {}
        self.modtree = {}
        self.mod_done = set()
        self.hook_attr = None
        self.hook_call = None
        self.eq_opaque = False
        self.node_count = 0
        self.models = models.Models(self)
        self.state0 = State()
        self.traces = self.past = None
        self.nstates = 0
        self.load_tree()
        if init:
            self.init_modules()

    # ------------------------------------------------------------- loading
    def load_tree(self):
        top = os.path.join(self.root, PKG)
        if not os.path.isdir(top):
            raise AnalysisError('no package at %s' % top)
        for d, dirs, files in os.walk(top):
            dirs.sort()
            for f in sorted(files):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, self.root)
                name = rel[:-3].replace(os.sep, '.')
                if name.endswith('.__init__'):
                    name = name[:-9]
                with open(p, 'rb') as fh:
                    src = fh.read()
                try:
                    tree = ast.parse(src, p)
                except SyntaxError as e:
                    raise AnalysisError('%s does not parse: %s' % (rel, e))
                self.modfile[name] = rel
                self.modtree[name] = tree
                self.mods[name] = ('mod', name)

    def init_modules(self):
        st = self.state0
        self.clock = Sym('time of import', ['float'])
        for name in self.mods:
            self.base[('mod', name)] = Obj('frame', None, {
                '__name__': C(name), '__file__': C(self.modfile[name])})
        order = [PKG] + sorted(n for n in self.mods if n != PKG)
        for name in order:
            if name.startswith(PKG + '.factories'):
                continue
            st = self.import_module(name, st)
        self.base.update(st.heap)
        o = self.base[('mod', PKG)]
        self.base[('mod', PKG)] = o.with_attr(
            '__version__', Sym('own_version', ['str']))
        self.clock = NOW
        st.heap = {}
        st.ev = ()
        self.state0 = State()
        self.init_facts = dict(st.facts)

    def import_module(self, name, st):
        """Make sure a repo module has been executed; returns a state."""
        if name in self.mod_done:
            return st
        parent = name.rpartition('.')[0]
        if parent and parent not in self.mod_done:
            st = self.import_module(parent, st)
        if name in self.mod_done:
            return st
        self.mod_done.add(name)
        fr = Frame(('mod', name), name, None, (), None, self.modfile[name])
        saved, self.sink = self.sink, []
        saved_t, self.tries = self.tries, []
        outs = self.ex(self.modtree[name].body, fr, st)
        raised, self.sink = self.sink, saved
        self.tries = saved_t
        outs = [o for o in outs if o[0] == 'n']
        if not outs:
            why = ''
            if raised:
                s, e = raised[0]
                why = ': ' + self.exc_text(e, s)
            raise AnalysisError('module %s does not get through its top '
                                'level%s' % (name, why))
        st = outs[0][1]
        if parent:
            o = self.obj(('mod', parent), st)
            short = name.rpartition('.')[2]
            st.heap[('mod', parent)] = o.with_attr(short, Mod(name))
        return st

    # ---------------------------------------------------------------- heap
    def obj(self, addr, st):
        o = st.heap.get(addr)
        if o is None:
            o = self.base.get(addr)
        return o

    def o(self, ref, st):
        return self.obj(ref.addr, st)

    def new(self, st, obj, addr=None):
        if addr is None:
            self.counter += 1
            addr = self.counter
        st.heap[addr] = obj
        return Ref(addr)

    def new_list(self, st, items=()):
        return self.new(st, Obj('list', Ext('builtins.list'), None,
                                tuple(items)))

    def new_set(self, st, items=(), frozen=False):
        out = []
        for i in items:
            if i not in out:
                out.append(i)
        return self.new(st, Obj('set', Ext(
            'builtins.frozenset' if frozen else 'builtins.set'), None,
            tuple(out)))

    def new_dict(self, st, items=(), src=None):
        return self.new(st, Obj('dict', Ext('builtins.dict'), None,
                                tuple(items), src))

    def fresh(self, what):
        self.counter += 1
        return App('fresh', self.counter, what)

    def top(self, why, node=None, fr=None):
        self.imprecise.append((why, getattr(node, 'lineno', None),
                               fr.file if fr else None))
        self.counter += 1
        return App('top', self.counter, why)

    def gap(self, what, value=None):
        """Something the analysis has no model of is relied on"""
        if isinstance(value, App):
            what += ' of ' + value.op
        self.gaps.append(what)

    # ------------------------------------------------------------- location
    def loc(self, node, fr):
        return '%s:%s' % (fr.file if fr else '?',
                          getattr(node, 'lineno', '?'))

    # ----------------------------------------------------------- exceptions
    def exc_class(self, name):
        """Ext or Cls for an exception class given by name"""
        if isinstance(name, Val):
            return name
        if '.' not in name:
            return Ext('builtins.' + name)
        return Ext(name)

    def raise_(self, st, cls, args=(), node=None, fr=None, origin=None,
               exact=True):
        cls = self.exc_class(cls)
        ref = self.new(st, Obj('exc', cls, {
            'args': Tup(*args), '\0origin': C(origin or ''),
            '\0exact': C(exact),
            '\0loc': C(self.loc(node, fr) if node is not None else '')}))
        self.sink.append((st, ref))
        return ref

    def exc_text(self, e, st):
        if not isinstance(e, Ref):
            return show(e)
        o = self.o(e, st)
        return '%s%s at %s' % (self.cls_name(o.cls),
                               show(o.attrs.get('args', '')),
                               show(o.attrs.get('\0loc', C('?'))))

    def cls_name(self, c):
        if isinstance(c, Cls):
            return self.classes[c.k[0]].qual
        if isinstance(c, Ext):
            return c.name.replace('builtins.', '')
        return show(c)

    def exc_sub(self, a, b):
        """is exception class a a subclass of b (both Cls/Ext)?"""
        if a == b:
            return True
        for x in self.mro(a):
            if x == b:
                return True
            if isinstance(x, Ext) and isinstance(b, Ext):
                px, pb = self.py_exc(x), self.py_exc(b)
                if px and pb and issubclass(px, pb):
                    return True
        return False

    def py_exc(self, e):
        n = e.name
        if n.startswith('builtins.'):
            return BUILTIN_EXC.get(n[9:])
        return models.EXT_EXC.get(n)

    def mro(self, c):
        if isinstance(c, Cls):
            return self.classes[c.k[0]].mro
        if isinstance(c, Ext):
            p = models.EXT_EXC_BASE.get(c.name)
            if p:
                return [c, Ext('builtins.' + p)]
        return [c]

    def may_raise(self, st, excs, key, node, fr):
        """An operation that can raise; pushes the raising part (if someone
        looks at it) and returns the state in which it did not raise, or None
        if it is already known to raise."""
        mode = self.implicit_mode
        if mode == 'none':
            return st
        for exc in excs:
            cls = self.exc_class(exc)
            if mode == 'try' and not self.caught_somewhere(cls):
                continue
            atom = App('raises', cls, key)
            known = st.facts.get(atom)
            if known is False:
                continue
            r = st.assume(atom, True)
            self.raise_(r, cls, (App('exc', cls, key),), node, fr,
                        origin='op', exact=False)
            if known is True:
                return None
            st = st.assume(atom, False)
        return st

    def caught_somewhere(self, cls):
        for hs in self.tries:
            for h in hs:
                if h is None or self.exc_sub(cls, h) or self.exc_sub(h, cls):
                    return True
        return False

    # ------------------------------------------------------------- statements
    def ex(self, stmts, fr, st):
        """Run statements; list of (kind, state, value),
        kind in n(ormal) r(eturn) b(reak) c(ontinue)"""
        live = [st]
        out = []
        for s in stmts:
            nxt = []
            for cur in live:
                for k, s2, v in self.ex1(s, fr, cur):
                    if k == 'n':
                        nxt.append(s2)
                    else:
                        out.append((k, s2, v))
            live = self.limit(nxt)
            if not live:
                break
        out.extend(('n', s, None) for s in live)
        return out

    JOIN_AT = 48
    ticks = 0
    deadline = float('inf')
    LOOP_AT = 16
    BIG = 24

    def limit(self, states, at=None):
        at = at or self.JOIN_AT
        if len(states) <= at:
            return states
        states = [s for s, _ in self.merge([(s, None) for s in states])]
        if len(states) <= at // 4:
            return states
        parts = {}
        for s in states:
            parts.setdefault(self.crucial(s), []).append(s)
        if len(parts) <= at:
            return [self.join(p) for p in parts.values()]
        return [self.join(states)]

    CRUCIAL = frozenset(['recover', 'hmac', 'crypt', 'ethrecover'])

    def crucial(self, st):
        """What the path has established about signatures and tags"""
        return frozenset((k, v) for k, v in st.facts.items()
                         if mentions(k, self.CRUCIAL))

    # Partitions that differ only in what is known of values the rest of the
    # run treats alike are merged again.
    def merge(self, outs):
        """Merge (state, value) pairs with equal heaps, events and values
        whose knowledge differs in one respect; nothing else is lost"""
        res = []
        for part in self.same_heap(outs):
            res.extend(self.merge_facts(part))
        return res

    def same_heap(self, outs):
        shared = set(outs[0][0].heap)
        for s, _ in outs[1:]:
            shared &= set(s.heap)
        first = outs[0][0].heap
        differ = sorted((a for a in shared if any(
            s.heap[a] is not first[a] for s, _ in outs[1:])), key=repr)
        groups = {}
        for s, v in outs:
            groups.setdefault((self.shape(s, v, shared, differ), s.ev),
                              []).append((s, v))
        return list(groups.values())

    def shape(self, st, val, shared, differ):
        """The heap up to the names of objects made since, without what
        cannot be reached"""
        names = {}
        todo = []

        def term(v):
            if isinstance(v, Ref):
                if v.addr in shared or v.addr not in st.heap:
                    return v
                if v.addr not in names:
                    names[v.addr] = len(names)
                    todo.append(v.addr)
                return ('made', names[v.addr])
            if isinstance(v, Fn):
                return (v.k[0], term(tuple(map(Ref, v.k[1]))),
                        term(v.k[2]))
            if isinstance(v, Val):
                if not refers(v):
                    return v
                return (v.__class__.__name__, term(v.k))
            if isinstance(v, tuple):
                return tuple([term(x) for x in v])
            if isinstance(v, frozenset):
                if not any(refers(x) for x in v):
                    return v
                return frozenset(term(x) for x in sorted(v, key=show))
            return v

        def obj(o):
            return (o.kind, o.cls, tuple(
                (k, term(o.attrs[k])) for k in sorted(o.attrs, key=str)),
                term(o.data), term(o.src), term(o.gone))
        out = [term(val)]
        for a in differ:
            out.append(obj(st.heap[a]))
        while todo:
            out.append(obj(st.heap[todo.pop()]))
        return tuple(out)

    def merge_facts(self, part):
        if len(part) < 2:
            return part
        rows = []
        for s, v in part:
            d = {('f', k): x for k, x in s.facts.items()}
            d.update((('t', k), x) for k, x in s.ty.items())
            d.update((('i', k), x) for k, x in s.iv.items())
            rows.append((d, s, v))
        for _ in range(40):
            keys = {}
            for d, s, v in rows:
                for k, x in d.items():
                    keys.setdefault(k, set()).add(x)
            vary = [k for k in keys if len(keys[k]) > 1
                    or any(k not in d for d, _, _ in rows)]
            changed = False
            size = len(rows)
            rows = [(d, s, v, sum(hash((k, d[k])) for k in vary if k in d))
                    for d, s, v in rows]
            for key in vary:
                groups = {}
                order = []
                for r in rows:
                    rest = r[3]
                    if key in r[0]:
                        rest -= hash((key, r[0][key]))
                    if rest not in groups:
                        order.append(rest)
                    groups.setdefault(rest, []).append(r)
                rows = []
                for rest in order:
                    g = groups[rest]
                    if len(g) > 1:
                        g2 = self.merge_key(key, g)
                        changed = changed or len(g2) < len(g)
                        g = [(d, s, v, rest + (hash((key, d[key]))
                                               if key in d else 0))
                             for d, s, v in g2]
                    rows.extend(g)
            rows = [r[:3] for r in rows]
            if not changed or len(rows) < 2 or len(rows) > size * 0.9:
                break
        out = []
        for d, s, v in rows:
            n = State(s.heap, {}, {}, {}, s.ev)
            for (kind, k), x in d.items():
                (n.facts if kind == 'f' else n.ty if kind == 't'
                 else n.iv)[k] = x
            out.append((n, v))
        return out

    def merge_key(self, key, rows):
        """rows agree in everything but what they know of `key`"""
        rows = [r[:3] for r in rows]
        free = [r for r in rows if key not in r[0]]
        if free:
            return free[:1]
        vals = [r[0][key] for r in rows]
        first = rows[0]
        d = dict(first[0])
        if key[0] == 't':
            d[key] = frozenset().union(*vals)
        elif key[0] == 'i':
            d[key] = _hull(vals)
        elif set(vals) == {True, False} or (
                isinstance(key[1], App) and key[1].op == 'phi'
                and len(key[1].args) == 1
                and isinstance(key[1].args[0], Phi)
                and set(vals) >= set(key[1].args[0].alts)):
            del d[key]
        else:
            seen, res = [], []
            for r, x in zip(rows, vals):
                if x not in seen:
                    seen.append(x)
                    res.append(r)
            return res
        return [(d,) + tuple(first[1:])]

    def join(self, states):
        """Merge partitions into one (loses the correlation between them)"""
        first = states[0]
        res = State()
        addrs = set()
        for s in states:
            addrs.update(s.heap)
        for a in addrs:
            objs = [self.obj(a, s) for s in states]
            objs = [o for o in objs if o is not None]
            res.heap[a] = self.join_obj(objs)
        for k, v in first.facts.items():
            if all(s.facts.get(k) == v for s in states[1:]):
                res.facts[k] = v
        for k, v in first.ty.items():
            if all(k in s.ty for s in states[1:]):
                res.ty[k] = frozenset().union(*(s.ty[k] for s in states))
        for k, v in first.iv.items():
            if all(k in s.iv for s in states[1:]):
                res.iv[k] = _hull([s.iv[k] for s in states])
        n = 0
        while all(len(s.ev) > n and s.ev[n] == first.ev[n] for s in states):
            n += 1
        ev = list(first.ev[:n])
        for s in states:
            for e in s.ev[n:]:
                if e not in ev:
                    ev.append(e)
        res.ev = tuple(ev)
        return res

    def join_obj(self, objs):
        o = objs[0]
        if all(o.same(x) for x in objs[1:]):
            return o
        attrs = {}
        for x in objs:
            for k in x.attrs:
                attrs.setdefault(k, None)
        for k in attrs:
            vals = []
            for x in objs:
                v = x.attrs.get(k, App('unset', k))
                for w in (v.alts if isinstance(v, Phi) else (v,)):
                    if w not in vals:
                        vals.append(w)
            attrs[k] = vals[0] if len(vals) == 1 else Phi(frozenset(vals))
        data = o.data
        src = o.src
        if not all(x.data == data for x in objs[1:]):
            n = 0
            while all(len(x.data) > n and x.data[n] == o.data[n]
                      for x in objs):
                n += 1
            rest = []
            for x in objs:
                for d in x.data[n:]:
                    m = Many(App('maybe'), d, frozenset())
                    if m not in rest:
                        rest.append(m)
            data = o.data[:n] + tuple(rest)
        if not all(x.src == src for x in objs[1:]):
            src = App('joined', *[x.src for x in objs if x.src is not None])
        gone = o.gone
        for x in objs[1:]:
            gone = gone & x.gone
        return Obj(o.kind, o.cls, attrs, data, src, gone)

    def ex1(self, n, fr, st):
        self.node_count += 1
        m = getattr(self, 'ex_' + n.__class__.__name__, None)
        if m is None:
            self.top('statement ' + n.__class__.__name__, n, fr)
            return [('n', st, None)]
        return m(n, fr, st)

    def ex_Expr(self, n, fr, st):
        if isinstance(n.value, ast.Constant):
            return [('n', st, None)]
        return [('n', s, None) for s, _ in self.ev(n.value, fr, st)]

    def ex_Pass(self, n, fr, st):
        return [('n', st, None)]

    def ex_Break(self, n, fr, st):
        return [('b', st, None)]

    def ex_Continue(self, n, fr, st):
        return [('c', st, None)]

    def ex_Global(self, n, fr, st):
        for name in n.names:
            self.setlocal(fr, st, '\0global ' + name, TRUE)
        return [('n', st, None)]

    def ex_Nonlocal(self, n, fr, st):
        for name in n.names:
            self.setlocal(fr, st, '\0nonlocal ' + name, TRUE)
        return [('n', st, None)]

    def ex_Return(self, n, fr, st):
        if n.value is None:
            return [('r', st, NONE)]
        return [('r', s, v) for s, v in self.ev(n.value, fr, st)]

    def ex_Assign(self, n, fr, st):
        out = []
        for s, v in self.ev(n.value, fr, st):
            states = [s]
            for t in n.targets:
                states = [s3 for s2 in states
                          for s3 in self.assign(t, v, fr, s2)]
            out.extend(('n', x, None) for x in states)
        return out

    def ex_AnnAssign(self, n, fr, st):
        if n.value is None:
            return [('n', st, None)]
        return [('n', s2, None) for s, v in self.ev(n.value, fr, st)
                for s2 in self.assign(n.target, v, fr, s)]

    def ex_AugAssign(self, n, fr, st):
        t = n.target
        load = _as_load(t)
        out = []
        for s, v in self.ev(load, fr, st):
            for s2, w in self.ev(n.value, fr, s):
                for s3, r in self.augop(n.op, v, w, s2, n, fr):
                    out.extend(('n', s4, None)
                               for s4 in self.assign(t, r, fr, s3))
        return out

    def augop(self, op, v, w, st, n, fr):
        if isinstance(v, Ref):
            o = self.o(v, st)
            if o.kind == 'list' and isinstance(op, ast.Add):
                return [(s, v) for s, _ in self.models.m_list_extend(
                    v, [w], {}, st, n, fr)]
            if o.kind == 'set' and isinstance(op, (ast.BitOr, ast.Sub,
                                                   ast.BitAnd)):
                res = []
                for s, r in self.binop(op, v, w, st, n, fr):
                    s = s.fork()
                    ro = self.o(r, s) if isinstance(r, Ref) else None
                    if ro is not None:
                        s.heap[v.addr] = ro
                        res.append((s, v))
                    elif v.addr in self.base:
                        # others see the change
                        s.heap[v.addr] = self.o(v, s).but(data=(
                            Many(r, App('elem', r), frozenset()),))
                        res.append((s, v))
                    else:
                        res.append((s, r))
                return res
            if self.is_dictlike(o) and isinstance(op, ast.BitOr):
                return [(s, v) for s, _ in self.models.m_dict_update(
                    v, [w], {}, st, n, fr)]
        return self.binop(op, v, w, st, n, fr)

    def ex_Delete(self, n, fr, st):
        states = [st]
        for t in n.targets:
            nxt = []
            for s in states:
                if isinstance(t, ast.Subscript):
                    for s2, (b, i) in self.evs([t.value, t.slice], fr, s):
                        nxt.extend(self.delitem(b, i, s2, n, fr))
                elif isinstance(t, ast.Name):
                    o = self.obj(fr.addr, s)
                    a = dict(o.attrs)
                    a.pop(t.id, None)
                    s.heap[fr.addr] = o.but(attrs=a)
                    nxt.append(s)
                elif isinstance(t, ast.Attribute):
                    for s2, b in self.ev(t.value, fr, s):
                        if isinstance(b, Ref):
                            o = self.o(b, s2)
                            a = dict(o.attrs)
                            a.pop(t.attr, None)
                            s2 = s2.fork()
                            s2.heap[b.addr] = o.but(attrs=a)
                        nxt.append(s2)
                else:
                    nxt.append(s)
            states = nxt
        return [('n', s, None) for s in states]

    def ex_If(self, n, fr, st):
        out = []
        for s, v in self.ev(n.test, fr, st):
            for s2, b in self.truth(v, s, n, fr):
                out.extend(self.ex(n.body if b else n.orelse, fr, s2))
        return out

    def ex_Assert(self, n, fr, st):
        out = []
        for s, v in self.ev(n.test, fr, st):
            for s2, b in self.truth(v, s, n, fr):
                if b:
                    out.append(('n', s2, None))
                elif n.msg is None:
                    self.raise_(s2.fork(), 'AssertionError', (), n, fr,
                                origin='assert')
                else:
                    for s3, msg in self.ev(n.msg, fr, s2.fork()):
                        self.raise_(s3.fork(), 'AssertionError', (msg,), n,
                                    fr, origin='assert')
        return out

    def ex_Raise(self, n, fr, st):
        if n.exc is None:
            e = self.getname(fr, st, '\0exc')
            if e is not None:
                self.sink.append((st, e))
            else:
                self.raise_(st, 'RuntimeError', (), n, fr)
            return []
        for s, v in self.ev(n.exc, fr, st):
            causes = [(s, NONE)]
            if n.cause is not None:
                causes = self.ev(n.cause, fr, s)
            for s2, c in causes:
                self.raise_val(v, s2, n, fr, c)
        return []

    def raise_val(self, v, st, n, fr, cause=NONE):
        for s, v in self.split(v, st):
            if isinstance(v, (Cls, Ext)):
                for s2, inst in self.call(v, [], {}, s, n, fr):
                    self.raise_val(inst, s2, n, fr, cause)
                continue
            s = s.fork()
            if isinstance(v, Ref):
                o = self.o(v, s)
                if o.kind in ('exc', 'inst'):
                    o = o.with_attr('\0loc', C(self.loc(n, fr)))
                    if '\0origin' not in o.attrs or o.kind == 'inst':
                        o = o.with_attr('\0origin', C('raise'))
                    if '\0exact' not in o.attrs:
                        o = o.with_attr('\0exact', TRUE)
                    if cause != NONE:
                        o = o.with_attr('__cause__', cause)
                    s.heap[v.addr] = o
                self.sink.append((s, v))
            else:
                self.raise_(s, 'Exception', (v,), n, fr, exact=False)

    def ex_Import(self, n, fr, st):
        for a in n.names:
            name = a.name
            if name.split('.')[0] == PKG:
                st = self.import_module(name, st) \
                    if name in self.mods else st
                top = Mod(name) if a.asname else Mod(PKG)
                self.setlocal(fr, st, a.asname or PKG, top)
            else:
                if a.asname:
                    self.setlocal(fr, st, a.asname, self.ext(name))
                else:
                    self.setlocal(fr, st, name.split('.')[0],
                                  self.ext(name.split('.')[0]))
        return [('n', st, None)]

    def ext(self, name):
        return models.ALIASES.get(name) or Ext(name)

    def ex_ImportFrom(self, n, fr, st):
        if n.level:
            base = fr.mod.split('.')
            is_pkg = self.modfile[fr.mod].endswith('__init__.py')
            drop = n.level - (1 if is_pkg else 0)
            base = base[:len(base) - drop] if drop else base
            mod = '.'.join(base + ([n.module] if n.module else []))
        else:
            mod = n.module
        if mod.split('.')[0] != PKG:
            for a in n.names:
                self.setlocal(fr, st, a.asname or a.name,
                              self.ext(mod + '.' + a.name))
            return [('n', st, None)]
        if mod not in self.mods:
            self.raise_(st, 'ImportError', (C(mod),), n, fr)
            return []
        st = self.import_module(mod, st)
        for a in n.names:
            o = self.obj(('mod', mod), st)
            if a.name == '*':
                names = o.attrs
                for k, v in list(names.items()):
                    if not k.startswith('_'):
                        self.setlocal(fr, st, k, v)
                continue
            if a.name in o.attrs:
                v = o.attrs[a.name]
            elif mod + '.' + a.name in self.mods:
                st = self.import_module(mod + '.' + a.name, st)
                v = Mod(mod + '.' + a.name)
            else:
                self.raise_(st, 'ImportError',
                            (C('cannot import %s from %s'
                               % (a.name, mod)),), n, fr)
                return []
            self.setlocal(fr, st, a.asname or a.name, v)
        return [('n', st, None)]

    def ex_FunctionDef(self, n, fr, st):
        out = []
        for s, f in self.make_fn(n, fr, st):
            states = [(s, f)]
            for d in reversed(n.decorator_list):
                nxt = []
                for s2, cur in states:
                    for s3, dv in self.ev(d, fr, s2):
                        nxt.extend(self.call(dv, [cur], {}, s3, d, fr))
                states = nxt
            for s2, v in states:
                self.setlocal(fr, s2, n.name, v)
                out.append(('n', s2, None))
        return out

    ex_AsyncFunctionDef = ex_FunctionDef

    def make_fn(self, n, fr, st):
        """Closure for a def or lambda node: list of (state, Fn)"""
        a = n.args
        defnodes = list(a.defaults) + [d for d in a.kw_defaults
                                       if d is not None]
        out = []
        for s, vals in self.evs(defnodes, fr, st):
            name = getattr(n, 'name', '<lambda>')
            fid = self.func_id(n, fr, name)
            parents = () if fr.addr[0] == 'mod' and not fr.parents \
                else (fr.addr,) + fr.parents
            if fr.ns:
                parents = fr.parents
            out.append((s, Fn(fid, parents, tuple(vals))))
        return out

    def func_id(self, n, fr, name):
        for f in self.funcs:
            if f.node is n:
                return f.id
        qual = name
        if fr.ns and fr.cls is not None:
            qual = self.obj(fr.addr, State()) and name or name
            qual = fr.cls + '.' + name
        elif fr.fn is not None:
            qual = fr.fn.qual + '.' + name
        body = n.body if isinstance(n.body, list) else []
        gen = any(isinstance(x, (ast.Yield, ast.YieldFrom))
                  for b in body for x in _walk_own(b))
        f = FuncInfo(id=len(self.funcs), node=n, mod=fr.mod, qual=qual,
                     cls=None, is_gen=gen, file=fr.file)
        self.funcs.append(f)
        return f.id

    def ex_ClassDef(self, n, fr, st):
        out = []
        starred = [b for b in n.bases]
        for s, bases in self.evs(starred, fr, st):
            qual = n.name
            if fr.ns and fr.cls:
                qual = fr.cls + '.' + n.name
            self.counter += 1
            addr = ('ns', self.counter)
            s = s.fork()
            s.heap[addr] = Obj('ns', None, {
                '__module__': C(fr.mod), '__qualname__': C(qual)})
            parents = () if fr.addr[0] == 'mod' and not fr.parents \
                else (fr.addr,) + fr.parents
            if fr.ns:
                parents = fr.parents
            cfr = Frame(addr, fr.mod, fr.fn, parents, qual, fr.file, ns=True)
            for k, s2, _ in self.ex(n.body, cfr, s):
                if k != 'n':
                    continue
                s2, c = self.make_class(n.name, qual, bases, addr, fr, n, s2)
                states = [(s2, c)]
                for d in reversed(n.decorator_list):
                    states = [x for s3, cur in states
                              for s4, dv in self.ev(d, fr, s3)
                              for x in self.call(dv, [cur], {}, s4, d, fr)]
                for s3, v in states:
                    self.setlocal(fr, s3, n.name, v)
                    out.append(('n', s3, None))
        return out

    def make_class(self, name, qual, bases, nsaddr, fr, node, st):
        bases = [b for b in bases if b != Ext('builtins.object')]
        cid = len(self.classes)
        me = Cls(cid)
        info = ClassInfo(id=cid, name=name, qual=qual, mod=fr.mod,
                         bases=bases, node=node, file=fr.file)
        self.classes.append(info)
        ns = self.obj(nsaddr, st)
        st.heap[('ns', 'c', cid)] = ns
        info.mro = [me] + _c3([self.mro(b) for b in bases] + [list(bases)])
        # functions defined in the body learn their class (for super())
        for k, v in ns.attrs.items():
            self.set_owner(v, cid)
        for b in info.mro[1:]:
            if isinstance(b, Cls) and self.classes[b.k[0]].ntfields:
                info.ntfields = self.classes[b.k[0]].ntfields
        if any(b == Ext('enum.Enum') or b == Ext('enum.IntEnum')
               or b == Ext('enum.Flag') for b in info.mro):
            self.make_enum(info, me, st)
        has = Ext('builtins.object')
        closed = True
        for b in info.mro:
            if isinstance(b, Cls):
                if '__slots__' not in self.obj(
                        ('ns', 'c', b.k[0]), st).attrs:
                    closed = False
            elif b != has:
                closed = False
        info.slots_closed = closed
        v = ns.attrs.get('__slots__')
        info.own_slots = frozenset(self.const_strs(v, st)) \
            if v is not None else frozenset()
        return st, me

    def set_owner(self, v, cid):
        if isinstance(v, Fn):
            f = self.funcs[v.k[0]]
            if f.cls is None:
                f.cls = cid
        elif isinstance(v, (Prop, CM, SM, Cached)):
            for x in v.k:
                if isinstance(x, Val):
                    self.set_owner(x, cid)

    def make_enum(self, info, me, st):
        ns = self.obj(('ns', 'c', info.id), st)
        info.enum = True
        info.members = {}
        attrs = dict(ns.attrs)
        gen = self.cls_lookup(me, '_generate_next_value_', st)
        n = 0
        for k, v in list(attrs.items()):
            if k.startswith('_') or isinstance(v, (Fn, Prop, CM, SM, Cls,
                                                   Cached, Partial)):
                continue
            n += 1
            if isinstance(v, App) and v.op == 'auto':
                if gen is not None:
                    g = gen[1]
                    g = g.k[0] if isinstance(g, SM) else g
                    rs = self.call(g, [C(k), C(1), C(n - 1),
                                       self.new_list(st)], {}, st)
                    st2, v = rs[0]
                    st.heap.update(st2.heap)
                else:
                    prev = [m.value for m in info.members.values()]
                    v = C(prev[-1].v + 1 if prev else 1)
            same = [m for m in info.members.values() if m.value == v]
            info.members[k] = same[0] if same else EnumM(me, k, v)
            attrs[k] = info.members[k]
        st.heap[('ns', 'c', info.id)] = ns.but(attrs=attrs)

    def ex_For(self, n, fr, st):
        out = []
        for s, it in self.ev_lazy(n.iter, fr, st):
            done, left = [], []

            def use(s2, v):
                go = []
                for s3 in self.assign(n.target, v, fr, s2):
                    for k, s4, w in self.ex(n.body, fr, s3):
                        if k in 'nc':
                            go.append(s4)
                        elif k == 'b':
                            done.append(('n', s4, None))
                        else:
                            left.append((k, s4, w))
                return go
            live = self.consume(it, s, use, n, fr)
            if live is not None:
                for s2 in live:
                    out.extend(self.ex(n.orelse, fr, s2))
                out.extend(left)
                out.extend(done)
                continue
            for s2, segs in self.iterate(it, s, n, fr):
                out.extend(self.for_segs(n, segs, fr, s2))
        return out

    # ------------------------------------------------------ lazy generators
    # A generator that is consumed where it is made (the iterable of a loop,
    # the argument of any, all or next) is run together with its consumer,
    # so that what follows the element the consumer stops at never happens.
    want_lazy = None
    lazy_fn = None
    lazy_depth = 0

    def ev_lazy(self, n, fr, st):
        """Evaluate n; an iterator made here may be left unstarted"""
        if isinstance(n, ast.GeneratorExp) and not any(
                g.is_async for g in n.generators):
            out = []
            for s, it in self.ev(n.generators[0].iter, fr, st):
                s = s.fork()
                self.counter += 1
                addr = ('comp', self.counter)
                s.heap[addr] = Obj('frame')
                cfr = Frame(addr, fr.mod, fr.fn,
                            (fr.addr,) + tuple(fr.parents), fr.cls, fr.file)
                out.append((s, self.thunk(s, ('comp', n, cfr, it, fr))))
            return out
        if isinstance(n, ast.Call):
            self.want_lazy = n
            try:
                return self.ev(n, fr, st)
            finally:
                self.want_lazy = None
        return self.ev(n, fr, st)

    def thunk(self, st, what):
        ref = self.new(st, Obj('gen', Ext('builtins.generator'), None, ()))
        self.thunks[ref.addr] = what
        return ref

    def unstarted(self, v, st):
        """The way to run v, if nothing of it has been run"""
        if isinstance(v, Ref) and v.addr in self.thunks:
            o = self.o(v, st)
            if not o.data and C('started') not in o.gone:
                return self.thunks[v.addr]
        return None

    def consume(self, v, st, use, n, fr):
        """Run the unstarted iterator v, calling use(state, element) (which
        returns the states that ask for another element) for each element;
        returns the states in which it is exhausted, or None if v cannot be
        run that way."""
        how = self.unstarted(v, st)
        if how is None:
            return None
        held = self.sink
        self.sink = []
        escaped = []
        tries, mine = list(self.tries), self.tries

        def outer(s, x):
            # what the consumer raises does not pass through the generator
            inner, self.sink = self.sink, escaped
            t, self.tries = self.tries, list(tries)
            try:
                return use(s, x)
            finally:
                self.sink, self.tries = inner, t
        s0 = st.fork()
        s0.heap[v.addr] = self.o(v, s0).but(
            gone=frozenset([C('started')]))
        self.lazy_depth += 1
        try:
            live = self.run_thunk(how, s0, outer)
        except Eager:
            if self.lazy_depth > 1:
                raise
            return None
        finally:
            self.lazy_depth -= 1
            raised, self.sink, self.tries = self.sink, held, mine
        self.sink.extend(raised)
        self.sink.extend(escaped)
        return live

    def run_thunk(self, how, st, use):
        kind = how[0]
        if kind == 'comp':
            _, n, cfr, it, fr = how
            return self.lazy_comp(n, n.generators, cfr, it, st, use, fr)
        if kind == 'map':
            _, f, it, n, fr = how
            return self.lazy_items(it, st, n, fr, lambda s, x: [
                s3 for s2, r in self.call(f, [x], {}, s, n, fr)
                for s3 in use(s2, r)])
        if kind == 'filter':
            _, f, it, n, fr, want = how

            def one(s, x):
                rs = [(s, x)] if f == NONE else self.call(
                    f, [x], {}, s, n, fr)
                go = []
                for s2, r in rs:
                    for s3, b in self.truth(r, s2, n, fr):
                        go.extend(use(s3, x) if b == want else [s3])
                return go
            return self.lazy_items(it, st, n, fr, one)
        _, info, nfr = how
        self.yields[nfr.addr] = use
        self.depth += 1
        self.callstack.append(info)
        try:
            return [s for k, s, v in self.ex(info.node.body, nfr, st)]
        finally:
            del self.yields[nfr.addr]
            self.callstack.pop()
            self.depth -= 1

    def lazy_items(self, it, st, n, fr, one):
        live = self.consume(it, st, one, n, fr)
        if live is not None:
            return live
        out = []
        for s, segs in self.iterate(it, st, n, fr):
            if any(isinstance(x, Many) for x in segs):
                raise Eager()
            live = [s]
            for x in segs:
                live = self.limit([s3 for s2 in live for s3 in one(s2, x)],
                                  self.LOOP_AT)
            out.extend(live)
        return out

    def lazy_comp(self, n, gens, cfr, it, st, use, fr):
        g = gens[0]

        def one(s, x):
            out = []
            for s2 in self.assign(g.target, x, cfr, s):
                live = [s2]
                for c in g.ifs:
                    nxt = []
                    for s3 in live:
                        for s4, v in self.ev(c, cfr, s3):
                            for s5, b in self.truth(v, s4, n, fr):
                                (nxt if b else out).append(s5)
                    live = nxt
                for s3 in live:
                    if len(gens) > 1:
                        for s4, it2 in self.ev_lazy(gens[1].iter, cfr, s3):
                            out.extend(self.lazy_comp(
                                n, gens[1:], cfr, it2, s4, use, fr))
                        continue
                    for s4, v in self.ev(n.elt, cfr, s3):
                        out.extend(use(s4, v))
            return out
        return self.lazy_items(it, st, n, fr, one)

    def force(self, v, st):
        """Run an unstarted iterator to its end: [(state, list of items)]"""
        how = self.thunks[v.addr]
        s0 = st.fork()
        s0.heap[v.addr] = self.o(v, s0).but(gone=frozenset([C('started')]))
        kind = how[0]
        if kind == 'comp':
            _, n, cfr, it, fr = how
            return self.comp_gen(n, n.generators, cfr, s0, it)
        if kind in ('map', 'filter'):
            n, fr = how[3:5]
            name = 'builtins.map' if kind == 'map' else 'builtins.filter' \
                if how[5] else 'itertools.filterfalse'
            return [r for s, x in self.call(
                        Ext(name), [how[1], how[2]], {}, s0, n, fr)
                    for r in self.iterate(x, s, n, fr)]
        _, info, nfr = how
        y = self.new(s0, Obj('gen', Ext('builtins.generator'), None, ()))
        s0.heap[nfr.addr] = self.obj(nfr.addr, s0).with_attr('\0yield', y)
        self.depth += 1
        self.callstack.append(info)
        try:
            return [(s, list(self.o(y, s).data))
                    for k, s, v in self.ex(info.node.body, nfr, s0)]
        finally:
            self.callstack.pop()
            self.depth -= 1

    def short_circuit(self, f, n, fr, st):
        """any/all/next of an iterator made in the call itself"""
        out = []
        name = f.name if isinstance(f, Ext) else None
        if name not in ('builtins.any', 'builtins.all', 'builtins.next') \
                or n.keywords or not isinstance(
                    n.args[0] if n.args else None,
                    (ast.GeneratorExp, ast.Call)):
            return None
        if len(n.args) != (1 if name != 'builtins.next' else 2) \
                and name != 'builtins.next':
            return None
        for s, it in self.ev_lazy(n.args[0], fr, st):
            defs = [(s, [])]
            if len(n.args) > 1:
                defs = self.ev_seq(n.args[1:], fr, s)
            for s2, rest in defs:
                found = []

                def use(s3, v):
                    if name == 'builtins.next':
                        found.append((s3, v))
                        return []
                    go = []
                    for s4, b in self.truth(v, s3, n, fr):
                        if b == (name == 'builtins.any'):
                            found.append((s4, C(b)))
                        else:
                            go.append(s4)
                    return go
                live = self.consume(it, s2, use, n, fr)
                if live is None:
                    out.extend(self.call(f, [it] + rest, {}, s2, n, fr))
                    continue
                out.extend(found)
                for s3 in live:
                    if name != 'builtins.next':
                        out.append((s3, C(name == 'builtins.all')))
                    elif rest:
                        out.append((s3, rest[0]))
                    else:
                        self.raise_(s3.fork(), 'StopIteration', (), n, fr)
        return out

    def for_segs(self, n, segs, fr, st):
        """The loop over known segments; handles break/else."""
        live = [st]
        done = []      # left by break
        out = []
        if fr.addr in self.yields and any(
                isinstance(seg, Many) for seg in segs) and yielding(n):
            raise Eager()
        for seg in segs:
            nxt = []
            for s in live:
                if isinstance(seg, Many):
                    nx, dn, ot = self.generic_iter(n, seg, fr, s)
                    nxt.extend(nx)
                    done.extend(dn)
                    out.extend(ot)
                    continue
                for s2 in self.assign(n.target, seg, fr, s):
                    for k, s3, v in self.ex(n.body, fr, s2):
                        if k in 'nc':
                            nxt.append(s3)
                        elif k == 'b':
                            done.append(s3)
                        else:
                            out.append((k, s3, v))
            live = self.limit(nxt, self.LOOP_AT)
            if not live:
                break
        for s in live:
            out.extend(self.ex(n.orelse, fr, s))
        out.extend(('n', s, None) for s in done)
        return out

    def changed_cells(self, before, after):
        """Cells of objects that existed before and differ now"""
        cells = []
        for a, o in after.heap.items():
            b = self.obj(a, before)
            if b is None or b is o:
                continue
            if b.data != o.data or b.src != o.src or b.gone != o.gone:
                cells.append((a, None))
            for k, v in o.attrs.items():
                if b.attrs.get(k) != v:
                    cells.append((a, k))
        return cells

    def delta(self, before, after):
        """Facts added between two states, as a frozenset"""
        d = set()
        for k, v in after.facts.items():
            if before.facts.get(k) != v:
                d.add((k, v))
        for k, v in after.iv.items():
            if before.iv.get(k) != v:
                d.add((App('iv', k), v))
        for k, v in after.ty.items():
            if before.ty.get(k) != v:
                d.add((App('ty', k), v))
        return frozenset(d)

    def generic_iter(self, n, seg, fr, st):
        """Body of a loop for a generic element of an unbounded segment.
        Returns (states after the loop, states after break, other exits)"""
        seq, val, conds = seg.seq, seg.val, seg.conds
        start = st.fork()
        self.assume_all(start, conds)

        def run(state):
            nn, bb, oo = [], [], []
            for s in self.assign(n.target, val, fr, state):
                for k, s2, v in self.ex(n.body, fr, s):
                    if k in 'nc':
                        nn.append(s2)
                    elif k == 'b':
                        bb.append(s2)
                    else:
                        oo.append((k, s2, v))
            return nn, bb, oo

        mark = len(self.sink)
        nn, bb, oo = run(start.fork())
        targets = {x.id for x in ast.walk(n.target)
                   if isinstance(x, ast.Name)}
        cells = []
        for s in nn:
            for c in self.changed_cells(start, s):
                if c not in cells and not (c[0] == fr.addr
                                           and c[1] in targets):
                    cells.append(c)
        scalars = []
        appends = {}
        for a, k in cells:
            b = self.obj(a, start)
            if k is None:
                ok = all(self.obj(a, s).data[:len(b.data)] == b.data
                         and self.obj(a, s).src == b.src for s in nn)
                if ok:
                    appends[a] = True
                else:
                    scalars.append((a, k))
            else:
                scalars.append((a, k))
        acc_vals = {}
        if scalars:
            del self.sink[mark:]
            s0 = start.fork()
            for i, (a, k) in enumerate(scalars):
                o = self.obj(a, s0)
                acc = App('acc') if len(scalars) == 1 else App('acc', str(k))
                if k is None:
                    s0.heap[a] = o.but(data=(Many(App('acc'), acc,
                                                  frozenset()),))
                else:
                    s0.heap[a] = o.with_attr(k, acc)
                    v0 = o.attrs.get(k)
                    if v0 is not None:
                        t = self.types_of(v0, st)
                        if t is not None:
                            s0.ty[acc] = t
                acc_vals[(a, k)] = acc
            start2 = s0
            nn, bb, oo = run(s0.fork())
        else:
            start2 = start
        after = st.fork()
        exits = bool(bb or oo or len(self.sink) > mark)
        for s in nn:
            for a, o in s.heap.items():
                if self.obj(a, st) is None:
                    after.heap[a] = o
        paths = [(self.delta(st, s), s) for s in nn]
        for a in appends:
            b = self.obj(a, start)
            extra = []
            for d, s in paths:
                o = self.obj(a, s)
                for item in o.data[len(b.data):]:
                    if b.kind != 'list' and isinstance(item, tuple):
                        item = Tup(*item)
                    m = Many(seq, item, d if len(paths) > 1 else conds)
                    if m not in extra:
                        extra.append(m)
            after.heap[a] = b.but(data=b.data + tuple(extra))
        for (a, k), acc in acc_vals.items():
            exprs = set()
            for d, s in paths:
                o = self.obj(a, s)
                if k is None:
                    exprs.add((d if len(paths) > 1 else frozenset(),
                               self.freeze_data(o, s)))
                else:
                    v = o.attrs.get(k, App('unset', k))
                    exprs.add((d if len(paths) > 1 else frozenset(),
                               self.freeze(v, s)))
            b = self.obj(a, st)
            if k is None:
                after.heap[a] = b.but(data=(Many(seq, App(
                    'fold', seq, frozenset(
                        (d | conds, x) for d, x in exprs)), frozenset()),))
                continue
            init = b.attrs.get(k, App('unset', k))
            vals = {e for _, e in exprs}
            if all(not contains(e, acc) for e in vals):
                res = [init] if init != App('unset', k) else []
                vs = [e for e in vals if e not in res]
                if len(vs) == 1 and not isinstance(vs[0], App):
                    alts = frozenset(res + vs)
                    w = vs[0] if len(alts) == 1 else Phi(alts)
                else:
                    w = App('last', seq, init, frozenset(vals))
            elif len(exprs) == 1 and conds:
                w = App('fold', seq, self.freeze(init, st), frozenset(
                    (conds, x) for _, x in exprs))
            elif len(exprs) == 1:
                w = App('fold', seq, self.freeze(init, st),
                        next(iter(exprs))[1])
            else:
                w = App('fold', seq, self.freeze(init, st),
                        frozenset(exprs))
            o = self.obj(a, after)
            after.heap[a] = o.with_attr(k, w)
            t = start2.ty.get(acc)
            if t is not None and isinstance(w, App):
                after.ty[w] = t
        if exits:
            fa = App('forall', seq, frozenset(d for d, _ in paths))
            after.facts[fa] = True
            for s in bb:
                s.facts[fa] = False
            for _, s, _ in oo:
                s.facts[fa] = False
            for s, _ in self.sink[mark:]:
                s.facts[fa] = False
        ev = list(st.ev)
        for s in nn:
            for e in s.ev[len(st.ev):]:
                if e not in ev:
                    ev.append(e)
        after.ev = tuple(ev)
        return [after], bb, oo

    def assume_all(self, st, conds):
        for k, v in conds:
            if isinstance(k, App) and k.op == 'iv':
                st.iv[k.args[0]] = v
            elif isinstance(k, App) and k.op == 'ty':
                st.ty[k.args[0]] = v
            else:
                st.facts[k] = v

    def ex_While(self, n, fr, st):
        if fr.addr in self.yields and yielding(n):
            raise Eager()
        live = [st]
        out, done = [], []
        seen = []
        for i in range(400):
            nxt = []
            for s in live:
                for s2, v in self.ev(n.test, fr, s):
                    for s3, b in self.truth(v, s2, n, fr):
                        if not b:
                            done.append(('else', s3))
                            continue
                        for k, s4, w in self.ex(n.body, fr, s3):
                            if k in 'nc':
                                nxt.append(s4)
                            elif k == 'b':
                                done.append(('b', s4))
                            else:
                                out.append((k, s4, w))
            fresh = []
            for s in nxt:
                if any(not self.changed_cells(p, s) for p in seen):
                    continue
                fresh.append(s)
            seen.extend(fresh)
            live = self.limit(fresh, self.LOOP_AT)
            if not live:
                break
            if i > 6 and len(live) + len(done) > 40:
                self.top('while loop', n, fr)
                break
        else:
            self.top('while loop', n, fr)
        for k, s in done:
            if k == 'else':
                out.extend(self.ex(n.orelse, fr, s))
            else:
                out.append(('n', s, None))
        return out

    def ex_With(self, n, fr, st):
        suppress = []
        states = [st]
        for item in n.items:
            nxt = []
            for s in states:
                for s2, v in self.ev(item.context_expr, fr, s):
                    if isinstance(v, App) and v.op == 'suppress':
                        suppress.extend(v.args)
                        r = v
                    elif isinstance(v, Ref) and self.o(v, s2).kind == 'inst':
                        r = None
                        for s3, m in self.getattr(v, '__enter__', s2, n, fr):
                            for s4, r in self.call(m, [], {}, s3, n, fr):
                                s2 = s4
                    else:
                        r = App('enter', v)
                    if item.optional_vars is not None:
                        nxt.extend(self.assign(item.optional_vars, r, fr, s2))
                    else:
                        nxt.append(s2)
            states = nxt
        out = []
        for s in states:
            if suppress:
                saved, self.sink = self.sink, []
                self.tries.append(list(suppress))
                res = self.ex(n.body, fr, s)
                self.tries.pop()
                raised, self.sink = self.sink, saved
                out.extend(res)
                for s2, e in raised:
                    rest = self.match_exc(e, s2, [Tup(*suppress)])
                    for idx, s3 in rest:
                        if idx is None:
                            self.sink.append((s3, e))
                        else:
                            out.append(('n', s3, None))
            else:
                out.extend(self.ex(n.body, fr, s))
        return out

    def match_exc(self, e, st, handlers):
        """Which handler takes exception e: list of (index or None, state).
        handlers: class values (Tup of classes or class or None)"""
        res = []
        cls = self.o(e, st).cls if isinstance(e, Ref) else \
            Ext('builtins.Exception')
        exact = isinstance(e, Ref) and \
            self.o(e, st).attrs.get('\0exact', TRUE) == TRUE
        cur = st
        for i, h in enumerate(handlers):
            hs = list(h.items) if isinstance(h, Tup) else [h]
            flat = []
            for x in hs:
                flat.extend(x.items if isinstance(x, Tup) else [x])
            if any(x is None or x == NONE or self.exc_sub(cls, x)
                   for x in flat):
                res.append((i, cur))
                return res
            subs = [x for x in flat if self.exc_sub(x, cls)]
            if subs and not exact:
                # some subclass of cls: may be one of these
                for x in subs:
                    s = cur.fork()
                    if isinstance(e, Ref):
                        s.heap[e.addr] = self.o(e, s).but(cls=x)
                    res.append((i, s))
        res.append((None, cur))
        return res

    def ex_Try(self, n, fr, st):
        hvals = []
        hst = [st]
        for h in n.handlers:
            if h.type is None:
                hvals.append(None)
            else:
                r = self.ev(h.type, fr, st)
                if not r:
                    hvals.append(None)
                else:
                    hvals.append(r[0][1])
        flat = []
        for h in hvals:
            if h is None:
                flat.append(None)
            elif isinstance(h, Tup):
                flat.extend(h.items)
            else:
                flat.append(h)
        saved, self.sink = self.sink, []
        self.tries.append(flat if n.handlers else [])
        res = self.ex(n.body, fr, st)
        self.tries.pop()
        raised, self.sink = self.sink, saved
        out = []
        fin_sink = []
        if n.finalbody:
            saved2, self.sink = self.sink, fin_sink
        for k, s, v in res:
            if k == 'n' and n.orelse:
                out.extend(self.ex(n.orelse, fr, s))
            else:
                out.append((k, s, v))
        for s, e in raised:
            for idx, s2 in self.match_exc(e, s, hvals):
                if idx is None:
                    self.sink.append((s2, e))
                    continue
                h = n.handlers[idx]
                s2 = s2.fork()
                if h.name:
                    self.setlocal(fr, s2, h.name, e)
                prev = self.obj(fr.addr, s2).attrs.get('\0exc')
                self.setlocal(fr, s2, '\0exc', e)
                for k, s3, v in self.ex(h.body, fr, s2):
                    o = self.obj(fr.addr, s3)
                    a = dict(o.attrs)
                    a.pop('\0exc', None)
                    if prev is not None:
                        a['\0exc'] = prev
                    if h.name:
                        a.pop(h.name, None)
                    s3.heap[fr.addr] = o.but(attrs=a)
                    out.append((k, s3, v))
        if n.finalbody:
            self.sink = saved2
            out2 = []
            for k, s, v in out:
                for k2, s2, v2 in self.ex(n.finalbody, fr, s):
                    if k2 == 'n':
                        out2.append((k, s2, v))
                    else:
                        out2.append((k2, s2, v2))
            for s, e in fin_sink:
                for k2, s2, v2 in self.ex(n.finalbody, fr, s):
                    if k2 == 'n':
                        self.sink.append((s2, e))
                    else:
                        out2.append((k2, s2, v2))
            out = out2
        return out

    def ex_Match(self, n, fr, st):
        out = []
        for s, v in self.ev(n.subject, fr, st):
            live = [s]
            for case in n.cases:
                nxt = []
                for cur in live:
                    for s2, ok in self.match_pat(case.pattern, v, fr, cur):
                        if not ok:
                            nxt.append(s2)
                            continue
                        if case.guard is not None:
                            for s3, g in self.ev(case.guard, fr, s2):
                                for s4, b in self.truth(g, s3, n, fr):
                                    if b:
                                        out.extend(self.ex(case.body, fr, s4))
                                    else:
                                        nxt.append(s4)
                        else:
                            out.extend(self.ex(case.body, fr, s2))
                live = nxt
            out.extend(('n', s2, None) for s2 in live)
        return out

    def match_pat(self, p, v, fr, st):
        if isinstance(p, ast.MatchValue):
            return [x for s, w in self.ev(p.value, fr, st)
                    for x in self.eq(v, w, s, p, fr)]
        if isinstance(p, ast.MatchSingleton):
            return self.eq(v, C(p.value), st, p, fr)
        if isinstance(p, ast.MatchAs):
            rs = [(st, True)] if p.pattern is None else \
                self.match_pat(p.pattern, v, fr, st)
            if p.name:
                for s, ok in rs:
                    if ok:
                        self.setlocal(fr, s, p.name, v)
            return rs
        if isinstance(p, ast.MatchOr):
            out, live = [], [st]
            for alt in p.patterns:
                nxt = []
                for s in live:
                    for s2, ok in self.match_pat(alt, v, fr, s):
                        (out if ok else nxt).append((s2, True) if ok else s2)
                live = nxt
            return out + [(s, False) for s in live]
        self.top('match pattern', p, fr)
        return [(st, True), (st.fork(), False)]

    # ----------------------------------------------------------- assignment
    def setlocal(self, fr, st, name, v):
        o = self.obj(fr.addr, st)
        if '\0global ' + name in o.attrs:
            a = ('mod', fr.mod)
            st.heap[a] = self.obj(a, st).with_attr(name, v)
            return
        if '\0nonlocal ' + name in o.attrs:
            for p in fr.parents:
                po = self.obj(p, st)
                if name in po.attrs:
                    st.heap[p] = po.with_attr(name, v)
                    return
        st.heap[fr.addr] = o.with_attr(name, v)

    def getname(self, fr, st, name):
        for a in (fr.addr,) + tuple(fr.parents):
            o = self.obj(a, st)
            if name in o.attrs:
                return o.attrs[name]
        o = self.obj(('mod', fr.mod), st)
        if name in o.attrs:
            return o.attrs[name]
        return None

    def assign(self, t, v, fr, st):
        if isinstance(t, ast.Name):
            st = st.fork()
            self.setlocal(fr, st, t.id, v)
            return [st]
        if isinstance(t, ast.Attribute):
            return [s2 for s, b in self.ev(t.value, fr, st)
                    for s2 in self.setattr(b, t.attr, v, s, t, fr)]
        if isinstance(t, ast.Subscript):
            return [s2 for s, (b, i) in self.evs([t.value, t.slice], fr, st)
                    for s2 in self.setitem(b, i, v, s, t, fr)]
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, fr, st)
        if isinstance(t, (ast.Tuple, ast.List)):
            out = []
            for s, items in self.unpack(v, t.elts, st, t, fr):
                states = [s]
                for tt, x in zip(t.elts, items):
                    states = [s3 for s2 in states
                              for s3 in self.assign(tt, x, fr, s2)]
                out.extend(states)
            return out
        self.top('assignment target', t, fr)
        return [st]

    def unpack(self, v, elts, st, n, fr):
        """Unpack v into len(elts) values: list of (state, [values])"""
        want = len(elts)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        out = []
        for s, x in self.split(v, st):
            seq = None
            if isinstance(x, (Tup, NT)):
                seq = list(x.items)
            elif isinstance(x, Ref):
                o = self.o(x, s)
                if o.kind in ('list', 'set', 'gen') or self.is_dictlike(o):
                    r = self.iterate(x, s, n, fr)
                    if r:
                        s, seq = r[0]
                        if any(isinstance(i, Many) for i in seq):
                            seq = None
                            x = self.freeze(x, s)
            if seq is not None:
                if star:
                    i = star[0]
                    if len(seq) >= want - 1:
                        s = s.fork()
                        tail = want - i - 1
                        mid = seq[i:len(seq) - tail]
                        lst = self.new_list(s, mid)
                        out.append((s, seq[:i] + [lst]
                                    + (seq[len(seq) - tail:]
                                       if tail else [])))
                        continue
                if len(seq) == want and not star:
                    out.append((s, seq))
                else:
                    self.raise_(s.fork(), 'ValueError',
                                (C('unpack %d into %d' % (len(seq), want)),),
                                n, fr)
                continue
            ty = self.types_of(x, s)
            if ty is not None and not (ty & SIZED or 'other' in ty):
                self.raise_(s.fork(), 'TypeError', (C('unpack'),), n, fr)
                continue
            key = App('unpack', want, x)
            s2 = s
            if ty is None or (ty - SIZED):
                s2 = self.may_raise(s2, ['TypeError'], key, n, fr)
            if s2 is not None:
                s2 = self.may_raise(s2, ['ValueError'], key, n, fr)
            if s2 is None:
                continue
            if self.implicit_mode != 'none':
                s2 = s2.fork()
                self.refine_ty(s2, x, SIZED | {'other'})
            if not self.know_len(s2, x, want):
                continue
            out.append((s2, [App('item', x, C(i)) for i in range(want)]))
        return out

    # ----------------------------------------------------------- expressions
    def ev(self, n, fr, st):
        self.ticks += 1
        if not self.ticks & 255 and time.monotonic() > self.deadline:
            raise Budget('out of time')
        m = getattr(self, 'ev_' + n.__class__.__name__, None)
        if m is None:
            return [(st, self.top('expression ' + n.__class__.__name__,
                                  n, fr))]
        return m(n, fr, st)

    def evs(self, nodes, fr, st):
        res = [(st, [])]
        for n in nodes:
            res = [(s2, vals + [v]) for s, vals in res
                   for s2, v in self.ev(n, fr, s)]
        return res

    def ev_Constant(self, n, fr, st):
        return [(st, C(n.value))]

    def ev_Name(self, n, fr, st):
        v = self.getname(fr, st, n.id)
        if v is not None:
            if isinstance(v, App) and v.op == 'unset':
                s = st.fork()
                self.raise_(s, 'UnboundLocalError', (C(n.id),), n, fr)
                return []
            if isinstance(v, Phi) and any(
                    isinstance(x, App) and x.op == 'unset' for x in v.alts):
                rest = [x for x in v.alts
                        if not (isinstance(x, App) and x.op == 'unset')]
                v = rest[0] if len(rest) == 1 else Phi(frozenset(rest))
            return [(st, v)]
        if n.id in ('True', 'False', 'None'):
            return [(st, C({'True': True, 'False': False,
                            'None': None}[n.id]))]
        if n.id == '__class__' and fr.fn is not None \
                and fr.fn.cls is not None:
            return [(st, Cls(fr.fn.cls))]
        if hasattr(builtins, n.id) or n.id == '__file__':
            return [(st, Ext('builtins.' + n.id))]
        self.raise_(st.fork(), 'NameError', (C(n.id),), n, fr)
        return []

    def ev_Attribute(self, n, fr, st):
        return [r for s, b in self.ev(n.value, fr, st)
                for r in self.getattr(b, n.attr, s, n, fr)]

    def ev_Subscript(self, n, fr, st):
        out = []
        for s, b in self.ev(n.value, fr, st):
            if isinstance(n.slice, ast.Slice):
                parts = [x if x is not None else ast.Constant(value=None)
                         for x in (n.slice.lower, n.slice.upper,
                                   n.slice.step)]
                for s2, (lo, hi, step) in self.evs(parts, fr, s):
                    out.extend(self.getslice(b, lo, hi, step, s2, n, fr))
            else:
                for s2, i in self.ev(n.slice, fr, s):
                    out.extend(self.getitem(b, i, s2, n, fr))
        return out

    def ev_Slice(self, n, fr, st):
        parts = [x if x is not None else ast.Constant(value=None)
                 for x in (n.lower, n.upper, n.step)]
        return [(s, App('slice', *v)) for s, v in self.evs(parts, fr, st)]

    def ev_Tuple(self, n, fr, st):
        return [(s, Tup(*v)) for s, v in self.ev_seq(n.elts, fr, st)]

    def ev_seq(self, elts, fr, st):
        res = [(st, [])]
        for e in elts:
            nxt = []
            for s, vals in res:
                if isinstance(e, ast.Starred):
                    for s2, v in self.ev(e.value, fr, s):
                        for s3, items in self.iterate(v, s2, e, fr):
                            nxt.append((s3, vals + list(items)))
                else:
                    for s2, v in self.ev(e, fr, s):
                        nxt.append((s2, vals + [v]))
            res = nxt
        return res

    def ev_List(self, n, fr, st):
        out = []
        for s, v in self.ev_seq(n.elts, fr, st):
            s = s.fork()
            out.append((s, self.new_list(s, v)))
        return out

    def ev_Set(self, n, fr, st):
        out = []
        for s, v in self.ev_seq(n.elts, fr, st):
            s = s.fork()
            out.append((s, self.new_set(s, v)))
        return out

    def ev_Dict(self, n, fr, st):
        s = st.fork()
        ref = self.new_dict(s)
        states = [s]
        for k, v in zip(n.keys, n.values):
            nxt = []
            for s in states:
                if k is None:
                    for s2, d in self.ev(v, fr, s):
                        nxt.extend(s3 for s3, _ in self.models.m_dict_update(
                            ref, [d], {}, s2, n, fr))
                else:
                    for s2, (kv, vv) in self.evs([k, v], fr, s):
                        nxt.extend(self.dict_set(ref, kv, vv, s2, n, fr))
            states = nxt
        return [(s, ref) for s in states]

    def ev_Lambda(self, n, fr, st):
        return self.make_fn(n, fr, st)

    def ev_IfExp(self, n, fr, st):
        out = []
        for s, v in self.ev(n.test, fr, st):
            for s2, b in self.truth(v, s, n, fr):
                out.extend(self.ev(n.body if b else n.orelse, fr, s2))
        return out

    def ev_BoolOp(self, n, fr, st):
        is_and = isinstance(n.op, ast.And)
        live = [st]
        out = []
        for i, e in enumerate(n.values):
            last = i == len(n.values) - 1
            nxt = []
            for s in live:
                for s2, v in self.ev(e, fr, s):
                    if last:
                        out.append((s2, v))
                        continue
                    for s3, b in self.truth(v, s2, n, fr):
                        if b == is_and:
                            nxt.append(s3)
                        else:
                            out.append((s3, self.sharpen(v, b, s3)))
            live = nxt
        return out

    def sharpen(self, v, b, st):
        """v with its truth value known: a None-or-object known falsy..."""
        if isinstance(v, Phi):
            return v
        t = self.types_of(v, st)
        if t is not None and t == frozenset(['bool']):
            return C(b)
        if not b and t is not None and t == frozenset(['None']):
            return NONE
        return v

    def ev_UnaryOp(self, n, fr, st):
        out = []
        for s, v in self.ev(n.operand, fr, st):
            if isinstance(n.op, ast.Not):
                out.extend((s2, C(not b))
                           for s2, b in self.truth(v, s, n, fr))
            elif isinstance(n.op, ast.USub):
                if isinstance(v, C) and not isinstance(v.v, (str, bytes)) \
                        and v.v is not None:
                    out.append((s, C(-v.v)))
                else:
                    lv = lin_of(v)
                    if lv is None:
                        out.append((s, App('neg', v)))
                    else:
                        k, c, x = lv
                        out.append((s, mk_lin(k, {t: -y for t, y in
                                                  c.items()}, -x)))
            elif isinstance(n.op, ast.UAdd):
                out.append((s, v))
            else:
                if isinstance(v, C):
                    out.append((s, C(~v.v)))
                else:
                    out.append((s, App('inv', v)))
        return out

    def ev_BinOp(self, n, fr, st):
        return [r for s, (a, b) in self.evs([n.left, n.right], fr, st)
                for r in self.binop(n.op, a, b, s, n, fr)]

    def ev_Compare(self, n, fr, st):
        out = []
        ops = list(zip(n.ops, n.comparators))
        for s, left in self.ev(n.left, fr, st):
            live = [(s, left)]
            for i, (op, rn) in enumerate(ops):
                nxt = []
                for s2, lv in live:
                    for s3, rv in self.ev(rn, fr, s2):
                        for s4, b in self.compare(op, lv, rv, s3, n, fr):
                            if b and i < len(ops) - 1:
                                nxt.append((s4, rv))
                            else:
                                out.append((s4, C(b)))
                live = nxt
        return out

    def ev_NamedExpr(self, n, fr, st):
        return [(s2, v) for s, v in self.ev(n.value, fr, st)
                for s2 in self.assign(n.target, v, fr, s)]

    def ev_Starred(self, n, fr, st):
        return [(s, App('star', v)) for s, v in self.ev(n.value, fr, st)]

    def ev_JoinedStr(self, n, fr, st):
        res = [(st, [])]
        for p in n.values:
            if isinstance(p, ast.Constant):
                res = [(s, vals + [C(p.value)]) for s, vals in res]
                continue
            nxt = []
            for s, vals in res:
                for s2, v in self.ev(p.value, fr, s):
                    conv = chr(p.conversion) if p.conversion > 0 else ''
                    spec = ''
                    if p.format_spec is not None and all(
                            isinstance(x, ast.Constant)
                            for x in p.format_spec.values):
                        spec = ''.join(x.value for x in p.format_spec.values)
                    nxt.append((s2, vals + [self.models.fmt1(
                        v, conv, spec, s2)]))
            res = nxt
        return [(s, self.models.joinfmt(vals)) for s, vals in res]

    def ev_Call(self, n, fr, st):
        out = []
        # zero-argument super()
        if isinstance(n.func, ast.Name) and n.func.id == 'super' \
                and not n.args and fr.fn is not None:
            return self.zero_super(n, fr, st)
        lazy = self.want_lazy is n
        self.want_lazy = None
        for s, f in self.ev(n.func, fr, st):
            quick = self.short_circuit(f, n, fr, s)
            if quick is not None:
                out.extend(quick)
                continue
            for s2, args in self.ev_seq(n.args, fr, s):
                states = [(s2, {})]
                for kw in n.keywords:
                    nxt = []
                    for s3, kws in states:
                        for s4, v in self.ev(kw.value, fr, s3):
                            if kw.arg is not None:
                                k2 = dict(kws)
                                k2[kw.arg] = v
                                nxt.append((s4, k2))
                            else:
                                nxt.extend(self.star_kwargs(
                                    kws, v, s4, n, fr))
                    states = nxt
                for s3, kws in states:
                    if lazy and not kws and len(args) == 2 and isinstance(
                            f, Ext) and f.name in (
                                'builtins.map', 'builtins.filter',
                                'itertools.filterfalse'):
                        s3 = s3.fork()
                        how = ('map', args[0], args[1], n, fr) \
                            if f.name == 'builtins.map' else (
                                'filter', args[0], args[1], n, fr,
                                f.name == 'builtins.filter')
                        out.append((s3, self.thunk(s3, how)))
                        continue
                    self.lazy_fn = self.gen_of(f) if lazy else None
                    out.extend(self.call(f, args, kws, s3, n, fr))
                    self.lazy_fn = None
        return out

    def gen_of(self, f):
        while isinstance(f, (Bound, CM, SM)):
            f = f.k[0]
        if isinstance(f, Fn) and self.funcs[f.k[0]].is_gen:
            return f.k[0]
        return None

    def star_kwargs(self, kws, v, st, n, fr):
        """Merge **v into keyword arguments"""
        out = []
        for s, x in self.split(v, st):
            if isinstance(x, Ref) and self.is_dictlike(self.o(x, s)):
                o = self.o(x, s)
                k2 = dict(kws)
                bad = False
                manys = []
                for item in o.data:
                    if isinstance(item, Many):
                        manys.append(item)
                        continue
                    k, val = item
                    if isinstance(k, C) and isinstance(k.v, str):
                        k2[k.v] = val
                    elif isinstance(k, C):
                        bad = True
                    else:
                        manys.append(item)
                if bad:
                    self.raise_(s.fork(), 'TypeError',
                                (C('keywords must be strings'),), n, fr)
                    continue
                if o.src is not None or manys:
                    src = o.src if not manys else self.freeze(x, s)
                    k2['**'] = App('minus', src, o.gone) if o.gone else src
                out.append((s, k2))
                continue
            ty = self.types_of(x, s)
            if isinstance(x, Ref) and not (
                    self.o(x, s).kind == 'inst' and isinstance(
                        self.o(x, s).cls, Cls) and self.cls_lookup(
                            self.o(x, s).cls, 'keys', s)):
                ty = frozenset()
            if ty is not None and not ty & {'dict', 'other'}:
                self.raise_(s.fork(), 'TypeError', (C('** needs a dict'),),
                            n, fr)
                continue
            s2 = s
            if ty is None or ty != frozenset(['dict']):
                s2 = self.may_raise(s, ['TypeError'], App('mapping', x),
                                    n, fr)
                if s2 is None:
                    continue
                if self.implicit_mode != 'none':
                    s2 = s2.fork()
                    self.refine_ty(s2, x, {'dict', 'other'})
            k2 = dict(kws)
            k2['**'] = x
            out.append((s2, k2))
        return out

    def zero_super(self, n, fr, st):
        # first positional argument of the enclosing method
        fn = fr.fn
        args = fn.node.args
        names = [a.arg for a in args.posonlyargs + args.args]
        if fn.cls is None:
            return [(st, self.top('super() outside a class', n, fr))]
        if not names:
            return [(st, self.top('super()', n, fr))]
        me = self.getname(fr, st, names[0])
        return [(st, Super(Cls(fn.cls), me))]

    def ev_ListComp(self, n, fr, st):
        return self.comp(n, fr, st, 'list')

    def ev_GeneratorExp(self, n, fr, st):
        return self.comp(n, fr, st, 'gen')

    def ev_SetComp(self, n, fr, st):
        return self.comp(n, fr, st, 'set')

    def ev_DictComp(self, n, fr, st):
        return self.comp(n, fr, st, 'dict')

    def comp(self, n, fr, st, kind):
        st = st.fork()
        self.counter += 1
        addr = ('comp', self.counter)
        st.heap[addr] = Obj('frame')
        cfr = Frame(addr, fr.mod, fr.fn, (fr.addr,) + tuple(fr.parents),
                    fr.cls, fr.file)
        out = []
        for s, items in self.comp_gen(n, n.generators, cfr, st):
            s = s.fork()
            if kind == 'list':
                out.append((s, self.new_list(s, items)))
            elif kind == 'gen':
                out.append((s, self.new(s, Obj('gen', Ext(
                    'builtins.generator'), None, tuple(items)))))
            elif kind == 'set':
                out.append((s, self.new_set(s, items)))
            else:
                ref = self.new_dict(s)
                states = [s]
                for it in items:
                    nxt = []
                    for s2 in states:
                        if isinstance(it, Many):
                            o = self.o(ref, s2)
                            s3 = s2.fork()
                            s3.heap[ref.addr] = o.but(data=o.data + (it,))
                            nxt.append(s3)
                        else:
                            nxt.extend(self.dict_set(
                                ref, it.items[0], it.items[1], s2, n, fr))
                    states = nxt
                out.extend((s2, ref) for s2 in states)
        return out

    def comp_elem(self, n, fr, st):
        if isinstance(n, ast.DictComp):
            return [(s, Tup(*v)) for s, v in
                    self.evs([n.key, n.value], fr, st)]
        return self.ev(n.elt, fr, st)

    def comp_gen(self, n, gens, fr, st, given=None):
        """list of (state, [items])"""
        if not gens:
            return [(s, [v]) for s, v in self.comp_elem(n, fr, st)]
        g = gens[0]
        res = []
        for s, it in ([(st, given)] if given is not None
                      else self.ev(g.iter, fr, st)):
            for s2, segs in self.iterate(it, s, n, fr):
                live = [(s2, [])]
                for seg in segs:
                    nxt = []
                    for s3, acc in live:
                        if isinstance(seg, Many):
                            nxt.extend((s4, acc + items) for s4, items in
                                       self.comp_many(n, g, gens, seg, fr,
                                                      s3))
                            continue
                        for s4, items in self.comp_one(n, g, gens, seg, fr,
                                                       s3):
                            nxt.append((s4, acc + items))
                    live = nxt
                    if len(live) > 64:
                        # merge: items become optional
                        js = self.join([s for s, _ in live])
                        first = live[0][1]
                        alts = []
                        for _, a in live:
                            for x in a:
                                m = x if isinstance(x, Many) else Many(
                                    App('maybe'), x, frozenset())
                                if m not in alts:
                                    alts.append(m)
                        live = [(js, alts)]
                res.extend(live)
        return res

    def comp_one(self, n, g, gens, val, fr, st):
        out = []
        for s in self.assign(g.target, val, fr, st):
            live = [s]
            for c in g.ifs:
                nxt = []
                for s2 in live:
                    for s3, v in self.ev(c, fr, s2):
                        for s4, b in self.truth(v, s3, n, fr):
                            if b:
                                nxt.append(s4)
                            else:
                                out.append((s4, []))
                live = nxt
            for s2 in live:
                out.extend(self.comp_gen(n, gens[1:], fr, s2))
        return out

    def comp_many(self, n, g, gens, seg, fr, st):
        start = st.fork()
        self.assume_all(start, seg.conds)
        mark = len(self.sink)
        paths = self.comp_one(n, g, gens, seg.val, fr, start)
        after = st.fork()
        items = []
        ds = []
        for s, vals in paths:
            for a, o in s.heap.items():
                if self.obj(a, st) is None:
                    after.heap[a] = o
            d = self.delta(st, s)
            ds.append(d)
            for v in vals:
                if isinstance(v, Many):
                    m = Many(App('x', seg.seq, v.seq), v.val, v.conds | d)
                else:
                    m = Many(seg.seq, v, d if len(paths) > 1
                             else seg.conds)
                if m not in items:
                    items.append(m)
            for e in s.ev[len(st.ev):]:
                if e not in after.ev:
                    after.ev = after.ev + (e,)
        if len(self.sink) > mark:
            fa = App('forall', seg.seq, frozenset(ds))
            after.facts[fa] = True
            for s, _ in self.sink[mark:]:
                s.facts[fa] = False
        return [(after, items)]

    def ev_Yield(self, n, fr, st):
        vals = [(st, NONE)] if n.value is None else self.ev(n.value, fr, st)
        out = []
        if fr.addr in self.yields:
            return [(s2, NONE) for s, v in vals
                    for s2 in self.yields[fr.addr](s, v)]
        for s, v in vals:
            s = s.fork()
            o = self.obj(fr.addr, s)
            y = o.attrs['\0yield']
            lo = self.o(y, s)
            s.heap[y.addr] = lo.but(data=lo.data + (v,))
            out.append((s, NONE))
        return out

    def ev_YieldFrom(self, n, fr, st):
        out = []
        if fr.addr in self.yields:
            use = self.yields[fr.addr]
            return [(s2, NONE) for s, v in self.ev_lazy(n.value, fr, st)
                    for s2 in self.lazy_items(v, s, n, fr, use)]
        for s, v in self.ev(n.value, fr, st):
            for s2, items in self.iterate(v, s, n, fr):
                s2 = s2.fork()
                y = self.obj(fr.addr, s2).attrs['\0yield']
                lo = self.o(y, s2)
                s2.heap[y.addr] = lo.but(data=lo.data + tuple(items))
                out.append((s2, NONE))
        return out

    # ---------------------------------------------------------- partitions
    def split(self, v, st):
        """Resolve a merged value into its alternatives"""
        if not isinstance(v, Phi):
            return [(st, v)]
        key = App('phi', v)
        known = st.facts.get(key)
        if known is not None:
            return [(st, known)]
        out = []
        for a in sorted(v.alts, key=show):
            if isinstance(a, App) and a.op == 'unset':
                continue
            out.append((st.assume(key, a), a))
        return out

    # ----------------------------------------------------- types, intervals
    def types_of(self, v, st):
        """Set of type names v can have, or None if anything"""
        if isinstance(v, C):
            t = type(v.v).__name__
            if t == 'NoneType':
                t = 'None'
            return frozenset([t if t in UNIVERSE else 'other'])
        t = st.ty.get(v)
        if t is not None:
            return t
        if isinstance(v, Sym):
            return v.types
        if isinstance(v, (Tup, NT)):
            return frozenset(['tuple'])
        if isinstance(v, EnumM):
            return frozenset(['str', 'other'] if self.enum_is_str(v.k[0])
                             else ['other'])
        if isinstance(v, Ref):
            o = self.o(v, st)
            if o is None:
                return None
            if o.kind in ('list', 'set'):
                return frozenset([o.kind])
            if o.kind == 'dict' or self.is_dictlike(o):
                return frozenset(['dict'])
            return frozenset(['other'])
        if isinstance(v, App):
            return self.models.result_types(v, st)
        if isinstance(v, Phi):
            ts = [self.types_of(a, st) for a in v.alts]
            if any(t is None for t in ts):
                return None
            return frozenset().union(*ts)
        return frozenset(['other'])

    def refine_ty(self, st, v, keep):
        t = self.types_of(v, st)
        st.ty[v] = (t if t is not None else UNIVERSE) & frozenset(keep)

    def know_len(self, st, x, k):
        """Note in st that x has k elements; False if it cannot have"""
        atom = App('ulen', x)
        if st.facts.get(atom, k) != k:
            return False
        if self.models.is_wire(x):      # nothing else has elements
            self.refine_ty(st, x, SIZED)
        ty = self.types_of(x, st)
        t = App('truth', x)
        if ty is not None and ty <= SIZED:
            if st.facts.get(t, k > 0) is not (k > 0):
                return False
            st.facts[t] = k > 0
        st.facts[atom] = k
        return True

    def is_str(self, v, st):
        t = self.types_of(v, st)
        return t is not None and t == frozenset(['str'])

    def is_bytes(self, v, st):
        t = self.types_of(v, st)
        return t is not None and t and t <= {'bytes', 'bytearray'}

    def enum_is_str(self, c):
        return Ext('builtins.str') in self.mro(c)

    def is_dictlike(self, o):
        if o is None:
            return False
        if o.kind == 'dict':
            return True
        return o.kind == 'inst' and isinstance(o.cls, Cls) and any(
            b in (Ext('builtins.dict'), Ext('collections.OrderedDict'))
            for b in self.mro(o.cls))

    def intlike(self, t, st):
        ty = self.types_of(t, st)
        return ty is not None and ty and ty <= {'int', 'bool'}

    def bounds(self, coefs, const, st):
        """Bounds of a linear form: (lo, lo_strict, hi, hi_strict)"""
        if not coefs:
            return (const, False, const, False)
        vec, scale = vec_of(coefs)
        r = st.iv.get(vec)
        base = None
        if len(vec) == 1:
            base = self.models.range_of(vec[0][0], st)
        lo, ls, hi, hs = _meet(r, base)
        if scale < 0:
            lo, ls, hi, hs = hi, hs, lo, ls
        lo = lo * scale + const if lo is not None else None
        hi = hi * scale + const if hi is not None else None
        if lo is None and hi is None and len(coefs) > 1:
            # interval arithmetic on the parts
            tl, th = const, const
            for t, c in coefs.items():
                a, _, b, _ = self.bounds({t: Fraction(1)}, Fraction(0), st)
                if c < 0:
                    a, b = b, a
                tl = tl + a * c if tl is not None and a is not None else None
                th = th + b * c if th is not None and b is not None else None
            lo, hi, ls, hs = tl, th, False, False
        return lo, ls, hi, hs

    def lt_zero(self, form, strict, st):
        """Decide form < 0 (strict) or form <= 0: list of (state, bool)"""
        kind, coefs, const = form
        lo, ls, hi, hs = self.bounds(coefs, const, st)
        if hi is not None:
            if hi < 0 or (hi == 0 and (not strict or hs)):
                return [(st, True)]
        if lo is not None:
            if lo > 0 or (lo == 0 and (strict or ls)):
                return [(st, False)]
        if not coefs:
            return [(st, (const < 0) if strict else (const <= 0))]
        vec, scale = vec_of(coefs)
        limit = -const / scale
        allint = all(self.intlike(t, st) and c.denominator == 1
                     for t, c in vec)
        out = []
        for b in (True, False):
            s = st.fork()
            cur = s.iv.get(vec, (None, False, None, False))
            # form < 0  <=>  vec < limit (scale>0)  or  vec > limit
            upper = (scale > 0) == b
            st_here = strict if b else not strict
            lim, sth = limit, st_here
            if allint:
                if upper:
                    f = lim.numerator // lim.denominator
                    lim = Fraction(f - 1 if sth and f == lim else f)
                else:
                    f = -((-lim.numerator) // lim.denominator)
                    lim = Fraction(f + 1 if sth and f == lim else f)
                sth = False
            new = (None, False, lim, sth) if upper else \
                (lim, sth, None, False)
            m = _meet(cur, new)
            if _empty(m):
                continue
            s.iv[vec] = m
            out.append((s, b))
        return out

    # --------------------------------------------------------------- truth
    def truth(self, v, st, n=None, fr=None):
        out = []
        for s, x in self.split(v, st):
            out.extend(self.truth1(x, s, n, fr))
        return out

    def truth1(self, v, st, n, fr):
        if isinstance(v, C):
            return [(st, bool(v.v))]
        if isinstance(v, Tup):
            if any(isinstance(i, Many) for i in v.items):
                return self.fork_atom(App('nonempty', v), st)
            return [(st, bool(v.items))]
        if isinstance(v, EnumM):
            if self.enum_is_str(v.k[0]) and isinstance(v.value, C):
                return [(st, bool(v.value.v))]
            return [(st, True)]
        if isinstance(v, Ref):
            o = self.o(v, st)
            if o.kind in ('list', 'set', 'dict') or self.is_dictlike(o):
                if any(not isinstance(i, Many) for i in o.data):
                    return [(st, True)]
                if o.src is not None:
                    return self.fork_atom(App('nonempty', self.freeze(
                        v, st)), st)
                if o.data:
                    return self.fork_atom(App('nonempty', self.freeze(
                        v, st)), st)
                return [(st, False)]
            if o.kind == 'inst' and isinstance(o.cls, Cls):
                for name in ('__bool__', '__len__'):
                    m = self.cls_lookup(o.cls, name, st)
                    if m is not None and isinstance(m[1], Fn):
                        return [(s2, b) for s, r in self.call(
                            Bound(m[1], v), [], {}, st, n, fr)
                            for s2, b in self.truth(r, s, n, fr)]
            return [(st, True)]
        if isinstance(v, App) and v.op == 'not':
            return [(s, not b) for s, b in self.truth(v.args[0], st)]
        if isinstance(v, (Sym, App)):
            if isinstance(v, App) and v.op == 'cbor':
                return [(st, True)]     # an encoding is never empty
            ty = self.types_of(v, st)
            if ty is not None:
                if ty <= {'None'}:
                    return [(st, False)]
                if not ty & (NUM | SIZED | {'None'}) and self.models.solid(
                        v, st):
                    return [(st, True)]
                if ty <= NUM and not (isinstance(v, App)
                                      and v.op == 'lin'
                                      and v.args[0] != 'num'):
                    return [(s, not b) for s, b in self.eq(v, C(0), st,
                                                           n, fr)]
                if ty <= SIZED:
                    ln = self.length(v, st)
                    if isinstance(ln, C):
                        return [(st, ln.v > 0)]
                    r = []
                    for s, b in self.lt_zero(lin_of(ln), False, st):
                        r.append((s, not b))
                    return r
            atom = App('truth', v)
            out = []
            for s, b in self.fork_atom(atom, st):
                if b and (ty is None or 'None' in ty):
                    s.ty[v] = (ty if ty is not None else UNIVERSE) - {'None'}
                out.append((s, b))
            return out
        return [(st, True)]

    def fork_atom(self, atom, st):
        known = st.facts.get(atom)
        if known is not None:
            return [(st, known)]
        return [(st.assume(atom, True), True),
                (st.assume(atom, False), False)]

    # ---------------------------------------------------------- comparisons
    def compare(self, op, a, b, st, n, fr):
        out = []
        for s, x in self.split(a, st):
            for s2, y in self.split(b, s):
                out.extend(self.compare1(op, x, y, s2, n, fr))
        return out

    def compare1(self, op, a, b, st, n, fr):
        if isinstance(op, ast.Eq):
            return self.eq(a, b, st, n, fr)
        if isinstance(op, ast.NotEq):
            return [(s, not r) for s, r in self.eq(a, b, st, n, fr)]
        if isinstance(op, ast.Is):
            return self.is_(a, b, st, n, fr)
        if isinstance(op, ast.IsNot):
            return [(s, not r) for s, r in self.is_(a, b, st, n, fr)]
        if isinstance(op, ast.In):
            return self.contains(b, a, st, n, fr)
        if isinstance(op, ast.NotIn):
            return [(s, not r) for s, r in self.contains(b, a, st, n, fr)]
        # orderings
        if isinstance(a, C) and isinstance(b, C):
            try:
                r = {ast.Lt: lambda: a.v < b.v, ast.LtE: lambda: a.v <= b.v,
                     ast.Gt: lambda: a.v > b.v,
                     ast.GtE: lambda: a.v >= b.v}[type(op)]()
                return [(st, r)]
            except TypeError:
                self.raise_(st.fork(), 'TypeError', (C('ordering'),), n, fr)
                return []
        if isinstance(a, Ref) or isinstance(b, Ref):
            oa = self.o(a, st) if isinstance(a, Ref) else None
            ob = self.o(b, st) if isinstance(b, Ref) else None
            if (oa is None or oa.kind == 'set') and \
                    (ob is None or ob.kind == 'set') and (oa or ob):
                if isinstance(op, (ast.LtE,)):
                    return self.models.subset(a, b, st, n, fr)
                if isinstance(op, (ast.GtE,)):
                    return self.models.subset(b, a, st, n, fr)
        for x, y in ((a, b), (b, a)):
            ty = self.types_of(x, st)
            oy = self.types_of(y, st)
            if ty is not None and not ty & (NUM | {'other'}) and \
                    oy is not None and oy and oy <= NUM:
                self.raise_(st.fork(), 'TypeError', (C('ordering'),), n, fr)
                return []
        bad = []
        for x, y in ((a, b), (b, a)):
            oy = self.types_of(y, st)
            ty = self.types_of(x, st)
            if (ty is None or ty - NUM) and not isinstance(x, C) and not (
                    isinstance(x, App) and x.op == 'lin'):
                if oy is None or oy <= NUM or oy == frozenset(['other']):
                    bad.append(x)
        for x in bad:
            st = self.may_raise(st, ['TypeError'], App('order', x), n, fr)
            if st is None:
                return []
            if self.implicit_mode == 'all' or (
                    self.implicit_mode == 'try' and self.caught_somewhere(
                        Ext('builtins.TypeError'))):
                oy = self.types_of(b if x is a else a, st)
                if oy is not None and oy <= NUM:
                    st = st.fork()
                    self.refine_ty(st, x, NUM | {'other'})
        la, lb = lin_of(a), lin_of(b)
        if isinstance(b, C) and isinstance(b.v, float) and b.v in (
                float('inf'), float('-inf')):
            r = {ast.Lt: b.v > 0, ast.LtE: b.v > 0,
                 ast.Gt: b.v < 0, ast.GtE: b.v < 0}[type(op)]
            return [(st, r)]
        if isinstance(a, C) and isinstance(a.v, float) and a.v in (
                float('inf'), float('-inf')):
            r = {ast.Lt: a.v < 0, ast.LtE: a.v < 0,
                 ast.Gt: a.v > 0, ast.GtE: a.v > 0}[type(op)]
            return [(st, r)]
        if la is not None and lb is not None:
            d = lin_add(la, lb, -1)
            if d is None and la[0] != lb[0]:
                # a plain unknown compared with a time value takes its kind
                if la[0] == 'num' and not la[2] and la[1]:
                    la = (lb[0],) + la[1:]
                elif lb[0] == 'num' and not lb[2] and lb[1]:
                    lb = (la[0],) + lb[1:]
                d = lin_add(la, lb, -1)
            if d is not None:
                k, c, x = d
                neg = (k, {t: -y for t, y in c.items()}, -x)
                if isinstance(op, ast.Lt):
                    return self.lt_zero(d, True, st)
                if isinstance(op, ast.LtE):
                    return self.lt_zero(d, False, st)
                if isinstance(op, ast.Gt):
                    return self.lt_zero(neg, True, st)
                return self.lt_zero(neg, False, st)
        fa, fb = self.freeze(a, st), self.freeze(b, st)
        if isinstance(op, (ast.Gt, ast.GtE)):
            fa, fb = fb, fa
        if isinstance(op, (ast.Lt, ast.Gt)):
            return self.fork_atom(App('lt', fa, fb), st)
        return [(s, not r) for s, r in
                self.fork_atom(App('lt', fb, fa), st)]

    def is_none(self, v, st):
        ty = self.types_of(v, st)
        if ty is None:
            ty = UNIVERSE
        if 'None' not in ty:
            return [(st, False)]
        if ty == frozenset(['None']):
            return [(st, True)]
        if st.facts.get(App('truth', v)) is True:
            return [(st, False)]
        a, b = st.fork(), st.fork()
        a.ty[v] = frozenset(['None'])
        b.ty[v] = ty - {'None'}
        return [(a, True), (b, False)]

    def is_(self, a, b, st, n, fr):
        if a == b:
            return [(st, True)]
        if b == NONE:
            if isinstance(a, (Sym, App)):
                return self.is_none(a, st)
            return [(st, False)]
        if a == NONE:
            return self.is_(b, a, st, n, fr)
        if isinstance(a, (Cls, EnumM, Ref, Fn, Mod)) and \
                isinstance(b, (Cls, EnumM, Ref, Fn, Mod)):
            return [(st, False)]
        if isinstance(a, C) and isinstance(b, C):
            return [(st, False)]
        if isinstance(a, (Cls,)) and isinstance(b, Ext) or \
                isinstance(b, Cls) and isinstance(a, Ext):
            return [(st, False)]
        if isinstance(a, Ext) and isinstance(b, Ext):
            return [(st, False)]
        for x, y in ((a, b), (b, a)):
            if isinstance(y, C) and isinstance(y.v, bool):
                ty = self.types_of(x, st)
                if ty is not None and 'bool' not in ty:
                    return [(st, False)]
                if ty == frozenset(['bool']):
                    return [(s, r == y.v) for s, r in
                            self.truth(x, st, n, fr)]
        fa, fb = sorted((self.freeze(a, st), self.freeze(b, st)), key=show)
        return self.fork_atom(App('is', fa, fb), st)

    def is_const(self, v):
        if isinstance(v, (C, EnumM, Cls, Ext, Fn, Mod)):
            return True
        if isinstance(v, (Tup, NT)):
            return all(self.is_const(i) for i in v.items)
        return False

    def eq(self, a, b, st, n=None, fr=None):
        out = []
        for s, x in self.split(a, st):
            for s2, y in self.split(b, s):
                out.extend(self.eq1(x, y, s2, n, fr))
        return out

    def eq1(self, a, b, st, n, fr):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Ref):
                o = self.o(x, st)
                if o.kind == 'inst' and isinstance(o.cls, Cls):
                    m = self.cls_lookup(o.cls, '__eq__', st)
                    if m is not None and not isinstance(m[1], (Native, Ext)):
                        if self.eq_opaque or (a == b):
                            if a == b:
                                return [(st, True)]
                            break
                        return [(s2, r) for s, v in self.call(
                            Bound(m[1], x), [y], {}, st, n, fr)
                            for s2, r in self.truth(v, s, n, fr)]
        if a == b:
            return [(st, True)]
        if b == NONE or a == NONE:
            x = a if b == NONE else b
            if isinstance(x, (Sym, App)):
                return self.is_none(x, st)
            return [(st, False)]
        if isinstance(a, C) and isinstance(b, C):
            return [(st, a.v == b.v)]
        if isinstance(a, (Cls, Fn, Mod)) and \
                isinstance(b, (Cls, Fn, Mod, C, Ext, EnumM, Ref, Tup, NT)) \
                or isinstance(b, (Cls, Fn, Mod)) and \
                isinstance(a, (C, Ext, EnumM, Ref, Tup, NT)):
            return [(st, False)]
        for x, y in ((a, b), (b, a)):
            if isinstance(x, EnumM):
                if isinstance(y, EnumM):
                    if x.k[0] == y.k[0] and x.value == y.value:
                        return [(st, True)]
                    if self.enum_is_str(x.k[0]) and \
                            self.enum_is_str(y.k[0]):
                        return [(st, x.value == y.value)]
                    return [(st, False)]
                if self.enum_is_str(x.k[0]):
                    if isinstance(y, C):
                        return [(st, x.value == y)]
                    if isinstance(y, App) and y.op == 'enum' and \
                            self.enum_is_str(y.args[0]):
                        y = y.args[1]
                    if isinstance(y, (Sym, App)) and not (
                            isinstance(y, App) and y.op == 'enum'):
                        return self.eq1(x.value, y, st, n, fr)
                elif isinstance(y, C):
                    return [(st, False)]
        if isinstance(a, (Tup, NT)) and isinstance(b, (Tup, NT)):
            if len(a.items) != len(b.items):
                return [(st, False)]
            live, out = [st], []
            for x, y in zip(a.items, b.items):
                nxt = []
                for s in live:
                    for s2, r in self.eq(x, y, s, n, fr):
                        if r:
                            nxt.append(s2)
                        else:
                            out.append((s2, False))
                live = nxt
            return out + [(s, True) for s in live]
        if isinstance(a, Ref) and isinstance(b, Ref):
            oa, ob = self.o(a, st), self.o(b, st)
            if oa.kind == ob.kind == 'list' and not any(
                    isinstance(i, Many) for i in oa.data + ob.data):
                return self.eq1(Tup(*oa.data), Tup(*ob.data), st, n, fr)
            if self.is_dictlike(oa) and self.is_dictlike(ob) and \
                    oa.src is None and ob.src is None and all(
                        isinstance(i, tuple) and isinstance(i[0], C)
                        for i in tuple(oa.data) + tuple(ob.data)):
                da, db = dict(oa.data), dict(ob.data)
                if set(da) != set(db):
                    return [(st, False)]
                return self.eq1(Tup(*da.values()), Tup(
                    *[db[k] for k in da]), st, n, fr)
            if oa.kind == ob.kind == 'inst' and not self.is_dictlike(oa) \
                    and not self.eq_opaque and not (
                        isinstance(oa.src, (str, Val))
                        and isinstance(ob.src, (str, Val))):
                return [(st, False)]
        ta, tb = self.types_of(a, st), self.types_of(b, st)
        if ta is not None and tb is not None:
            if not ta & tb and not (ta & NUM and tb & NUM) \
                    and 'other' not in ta and 'other' not in tb \
                    and not (ta & {'bytes', 'bytearray'}
                             and tb & {'bytes', 'bytearray'}):
                return [(st, False)]
        if (ta and ta <= NUM or isinstance(a, App) and a.op == 'lin') and \
                (tb and tb <= NUM or isinstance(b, App) and b.op == 'lin'):
            la, lb = lin_of(a), lin_of(b)
            if la and lb:
                d = lin_add(la, lb, -1)
                if d is not None:
                    return self.lin_eq(d, st)
        fa, fb = self.freeze(a, st), self.freeze(b, st)
        if fa == fb:
            return [(st, True)]
        r = self.models.eq_norm(fa, fb)
        if r is True or r is False:
            return [(st, r)]
        if r is not None:
            fa, fb = r
            if self.is_const(fa) and self.is_const(fb) \
                    and isinstance(fa, C) and isinstance(fb, C):
                return [(st, fa.v == fb.v)]
        la, lb = self.models.len_of(fa, st), self.models.len_of(fb, st)
        if la is not None and lb is not None and la != lb:
            return [(st, False)]
        if self.past is not None and isinstance(fa, App) and \
                isinstance(fb, App) and fa.op == fb.op and \
                fa.op in models.COLLISION_FREE and \
                len(fa.args) == len(fb.args) and \
                history.of_past(fa) != history.of_past(fb):
            # of the same kind, one from an earlier call: the same only when
            # made from the same
            if any(x != y for x, y in zip(fa.args, fb.args)
                   if not isinstance(x, Val) or not isinstance(y, Val)):
                return [(st, False)]
            both = [(x, y) for x, y in zip(fa.args, fb.args) if x != y]
            return self.eq1(Tup(*[x for x, _ in both]),
                            Tup(*[y for _, y in both]), st, n, fr)
        if self.past is not None and not (
                isinstance(fa, App) and isinstance(fb, App)
                and fa.op == fb.op) and \
                history.of_past(fa) != history.of_past(fb):
            return [(st, False)]
        if show(fb) < show(fa):
            fa, fb = fb, fa
        atom = App('eq', fa, fb)
        known = st.facts.get(atom)
        if known is not None:
            return [(st, known)]
        # equality with one constant excludes the others
        for x, y in ((fa, fb), (fb, fa)):
            if self.is_const(y):
                for k, val in st.facts.items():
                    if val is True and isinstance(k, App) and \
                            k.op == 'eq' and x in k.args:
                        other = k.args[0] if k.args[1] == x else k.args[1]
                        if self.is_const(other) and other != y:
                            return [(st, False)]
        # a value of an enumeration that is none of the others
        for x, y in ((fa, fb), (fb, fa)):
            if self.is_const(y) and self.last_value(x, y, st):
                return [(st.assume(atom, True), True)]
        # the same question asked of numbers
        num = None
        for x, y in ((fa, fb), (fb, fa)):
            if isinstance(y, C) and isinstance(y.v, (int, float)) and \
                    isinstance(x, (Sym, App)) and lin_of(x) and lin_of(y):
                cur = self.types_of(x, st)
                if cur is None or cur & (NUM | {'other'}):
                    d = lin_add(lin_of(x), lin_of(y), -1)
                    num = self.lin_eq(d, st) if d is not None else None
        if num is not None:
            if all(r is False for _, r in num):
                return [(st, False)]
            t = next(s for s, r in num if r)
            f = next((s for s, r in num if not r), st)
            t, f = t.assume(atom, True), f.assume(atom, False)
        else:
            t, f = st.assume(atom, True), st.assume(atom, False)
        if self.past is not None:
            history.unify(t, fa, fb)
        for x, y in ((fa, fb), (fb, fa)):
            ty = self.types_of(y, st)
            if self.is_const(y) and isinstance(x, (Sym, App)) and ty:
                cur = self.types_of(x, st)
                keep = (NUM if ty <= NUM else ty | {'other'})
                t.ty[x] = (cur if cur is not None else UNIVERSE) & keep
        return [(t, True), (f, False)]

    def last_value(self, x, y, st):
        for k, val in st.facts.items():
            if val is True and isinstance(k, App) and k.op == 'isvalue' \
                    and k.args[1] == x and isinstance(k.args[0], Cls):
                vals = [m.value for m in self.classes[
                    k.args[0].k[0]].members.values()]
                if y in vals and all(
                        v == y or st.facts.get(App('eq', *sorted(
                            [v, x], key=show))) is False for v in vals):
                    return True
        return False

    def lin_eq(self, d, st):
        k, coefs, const = d
        if not coefs:
            return [(st, const == 0)]
        lo, ls, hi, hs = self.bounds(coefs, const, st)
        if (lo is not None and (lo > 0 or lo == 0 and ls)) or \
                (hi is not None and (hi < 0 or hi == 0 and hs)):
            return [(st, False)]
        if lo == 0 and hi == 0:
            return [(st, True)]
        vec, scale = vec_of(coefs)
        pt = -const / scale
        if all(self.intlike(t, st) and c.denominator == 1
               for t, c in vec) and pt.denominator != 1:
            return [(st, False)]
        atom = App('eqlin', vec, pt)
        known = st.facts.get(atom)
        if known is not None:
            return [(st, known)]
        out = []
        t = st.assume(atom, True)
        t.iv[vec] = (pt, False, pt, False)
        out.append((t, True))
        f = st.assume(atom, False)
        cur = f.iv.get(vec, (None, False, None, False))
        lo, ls, hi, hs = _meet(cur, self.models.range_of(
            vec[0][0], st) if len(vec) == 1 else None)
        isint = all(self.intlike(t, st) for t, _ in vec)
        if lo == pt:
            f.iv[vec] = (lo + 1, False, hi, hs) if isint else \
                (lo, True, hi, hs)
        elif hi == pt:
            f.iv[vec] = (lo, ls, hi - 1, False) if isint else \
                (lo, ls, hi, True)
        out.append((f, False))
        return out

    def contains(self, cont, x, st, n, fr):
        out = []
        for s, c in self.split(cont, st):
            for s2, y in self.split(x, s):
                out.extend(self.contains1(c, y, s2, n, fr))
        return out

    def any_eq(self, items, x, st, n, fr):
        live, out = [st], []
        for i in items:
            nxt = []
            for s in live:
                if isinstance(i, Many):
                    fa, fx = self.freeze(i, s), self.freeze(x, s)
                    for s2, r in self.fork_atom(App('in', fx, fa), s):
                        if r:
                            out.append((s2, True))
                        else:
                            nxt.append(s2)
                    continue
                for s2, r in self.eq(x, i, s, n, fr):
                    if r:
                        out.append((s2, True))
                    else:
                        nxt.append(s2)
            live = nxt
        return out + [(s, False) for s in live]

    def contains1(self, c, x, st, n, fr):
        if isinstance(c, Tup):
            return self.any_eq(c.items, x, st, n, fr)
        if isinstance(c, Ref):
            o = self.o(c, st)
            if o.kind == 'inst' and isinstance(o.cls, Cls):
                m = self.cls_lookup(o.cls, '__contains__', st)
                if m is not None and isinstance(m[1], Fn):
                    return [(s2, b) for s, v in self.call(
                        Bound(m[1], c), [x], {}, st, n, fr)
                        for s2, b in self.truth(v, s, n, fr)]
            if o.kind == 'set' or self.is_dictlike(o):
                st = self.need_hash(x, st, n, fr)
                if st is None:
                    return []
            if o.kind in ('list', 'set', 'gen'):
                if len(o.data) > 24 and not isinstance(x, C):
                    return self.fork_atom(App('in', self.freeze(x, st),
                                              self.freeze(c, st)), st)
                return self.any_eq(o.data, x, st, n, fr)
            if self.is_dictlike(o):
                return [(s, v is not None) for s, v in
                        self.dict_find(c, x, st, n, fr)]
        if isinstance(c, C) and isinstance(x, C):
            try:
                return [(st, x.v in c.v)]
            except TypeError:
                self.raise_(st.fork(), 'TypeError', (C('in'),), n, fr)
                return []
        if isinstance(c, Cls) and self.classes[c.k[0]].enum:
            return self.models.enum_contains(c, x, st, n, fr)
        if isinstance(c, Native) and c.k[0] in ('keys', 'items', 'values'):
            return self.contains1(c.k[1], x, st, n, fr) \
                if c.k[0] == 'keys' else self.any_eq(
                    self.iterate(c, st, n, fr)[0][1], x, st, n, fr)
        if isinstance(c, Native) and c.k[0] == 'range':
            return self.in_range(c, x, st, n, fr)
        ty = self.types_of(c, st)
        key = App('in', self.freeze(x, st), self.freeze(c, st))
        xt = self.types_of(x, st)
        if isinstance(c, App) and c.op == 'spec' and isinstance(x, App) \
                and x.op == 'version':
            return self.fork_atom(key, st)
        if ty is None or ty - SIZED or (
                'str' in ty and (xt is None or xt - {'str'})) or (
                'bytes' in ty and (xt is None or xt - {
                    'bytes', 'int', 'bool'})) or (
                ty & {'dict', 'set'} and (xt is None or xt & {
                    'list', 'dict', 'set'})):
            st = self.may_raise(st, ['TypeError'], key, n, fr)
            if st is None:
                return []
        return self.fork_atom(key, st)

    def in_range(self, c, x, st, n, fr):
        """Membership of a range: a matter of bounds for an integer, of
        equality otherwise; never an error"""
        r = range(*c.k[1])
        if isinstance(x, C):
            return [(st, x.v in r)]
        if isinstance(x, (Tup, NT, Cls, Fn)):
            return [(st, False)]
        if isinstance(x, Ref) or not r:
            return [(st, False)] if not r else self.fork_atom(
                App('in', self.freeze(x, st), c), st)
        ty = self.types_of(x, st) or UNIVERSE
        ints = ty & {'int', 'bool'}
        vague = ty & {'float', 'other'}
        parts = []
        for some in (ints, vague, ty - ints - vague):
            if not some:
                continue
            s = st
            if some != ty:
                s = st.fork()
                s.ty[x] = frozenset(some)
            parts.append((s, some))
        out = []
        for s, some in parts:
            if some == vague or (some == ints and r.step != 1):
                out.extend(self.fork_atom(
                    App('in', self.freeze(x, s), c), s))
            elif some == ints:
                for s2, b in self.order(ast.GtE(), x, C(r.start), s, n, fr):
                    if not b:
                        out.append((s2, False))
                        continue
                    out.extend(self.order(ast.Lt(), x, C(r.stop), s2, n,
                                          fr))
            else:
                out.append((s, False))
        return out

    def order(self, op, a, b, st, n, fr):
        return [(s2, t) for s, v in self.compare(op, a, b, st, n, fr)
                for s2, t in ([(s, v)] if isinstance(v, bool)
                              else self.truth(v, s, n, fr))]

    # ------------------------------------------------------------ operators
    def binop(self, op, a, b, st, n, fr):
        out = []
        for s, x in self.split(a, st):
            for s2, y in self.split(b, s):
                out.extend(self.binop1(op, x, y, s2, n, fr))
        return out

    def binop1(self, op, a, b, st, n, fr):
        name = op.__class__.__name__
        if isinstance(a, C) and isinstance(b, C):
            try:
                v = models.PYOPS[name](a.v, b.v)
                if isinstance(v, (int, float, str, bytes, bool)) or \
                        type(v).__name__ == 'timedelta':
                    return [(st, C(v))]
                if isinstance(v, tuple):
                    return [(st, Tup(*[C(x) for x in v]))]
            except ZeroDivisionError:
                self.raise_(st.fork(), 'ZeroDivisionError', (), n, fr)
                return []
            except OverflowError:
                pass
            except TypeError:
                self.raise_(st.fork(), 'TypeError', (C(name),), n, fr)
                return []
        return self.models.binop(name, a, b, st, n, fr)

    # -------------------------------------------------------------- items
    def length(self, v, st):
        """Length as a Val"""
        if isinstance(v, (Tup, NT)):
            if not any(isinstance(i, Many) for i in v.items):
                return C(len(v.items))
            return App('len', v)
        if isinstance(v, C) and isinstance(v.v, (str, bytes)):
            return C(len(v.v))
        if isinstance(v, Ref):
            o = self.o(v, st)
            if o.kind in ('list', 'set', 'dict', 'gen') or \
                    self.is_dictlike(o):
                if o.src is None and not any(isinstance(i, Many)
                                             for i in o.data):
                    return C(len(o.data))
                return App('len', self.freeze(v, st))
        k = self.models.len_of(v, st)
        if k is not None:
            return C(k)
        return self.models.len_term(v, st)

    def getitem(self, b, i, st, n, fr):
        out = []
        for s, x in self.split(b, st):
            for s2, y in self.split(i, s):
                out.extend(self.getitem1(x, y, s2, n, fr))
        return out

    def getitem1(self, b, i, st, n, fr):
        if isinstance(i, App) and i.op == 'slice':
            return self.getslice(b, i.args[0], i.args[1], i.args[2], st, n,
                                 fr)
        if isinstance(i, App) and i.op == 'idx' and \
                i.args[0] == self.freeze(b, st):
            return [(st, App('elem', i.args[0]))]
        if isinstance(b, EnumM) and self.enum_is_str(b.k[0]):
            b = b.value
        if isinstance(b, (Tup, NT)):
            if isinstance(i, C) and isinstance(i.v, int) and not any(
                    isinstance(x, Many) for x in b.items):
                try:
                    return [(st, b.items[i.v])]
                except IndexError:
                    self.raise_(st.fork(), 'IndexError', (), n, fr)
                    return []
            return [(st, App('item', b, i))]
        if isinstance(b, Ref):
            o = self.o(b, st)
            if o.kind == 'inst' and isinstance(o.cls, Cls):
                m = self.cls_lookup(o.cls, '__getitem__', st)
                if m is not None and isinstance(m[1], Fn):
                    return self.call(Bound(m[1], b), [i], {}, st, n, fr)
            if o.kind in ('list',):
                if isinstance(i, C) and isinstance(i.v, int) and not any(
                        isinstance(x, Many) for x in o.data):
                    try:
                        return [(st, o.data[i.v])]
                    except IndexError:
                        self.raise_(st.fork(), 'IndexError', (), n, fr)
                        return []
                return [(st, App('item', self.freeze(b, st), i))]
            if self.is_dictlike(o):
                return self.dict_get(b, i, st, n, fr)
        if isinstance(b, Cls):
            info = self.classes[b.k[0]]
            if info.enum:
                if isinstance(i, C):
                    if i.v in info.members:
                        return [(st, info.members[i.v])]
                    self.raise_(st.fork(), 'KeyError', (i,), n, fr)
                    return []
                s2 = self.may_raise(st, ['KeyError'], App('enumkey', b, i),
                                    n, fr)
                return [] if s2 is None else [(s2, App('enumitem', b, i))]
            return [(st, b)]
        if isinstance(b, Ext):
            return [(st, b)]       # typing generics
        if isinstance(b, C) and isinstance(i, C):
            try:
                return [(st, C(b.v[i.v]))]
            except (IndexError, TypeError) as e:
                self.raise_(st.fork(), type(e).__name__, (), n, fr)
                return []
        if self.is_bytes(b, st) or self.is_str(b, st):
            if isinstance(i, C) and isinstance(i.v, int):
                v = self.models.byte_at(b, i.v, st)
                ln = self.models.len_of(b, st)
                if ln is None:
                    st = self.may_raise(st, ['IndexError'],
                                        App('index', b, i), n, fr)
                    if st is None:
                        return []
                return [(st, v)]
        if isinstance(b, App) and b.op == 'ethsign' and i in ETHSIGN:
            return [(st, App('item', b, i))]
        ty = self.types_of(b, st)
        if ty is not None and not ty & (SIZED | {'other'}):
            self.raise_(st.fork(), 'TypeError', (C('subscript'),), n, fr)
            return []
        fi = self.freeze(i, st)
        key = App('item', b, fi)
        if ty is None or ty - SIZED:
            st = self.may_raise(st, ['TypeError'], App('subscr', b), n, fr)
            if st is None:
                return []
        if ty is None or 'dict' in ty or 'other' in ty:
            if st.facts.get(App('has', b, fi)) is not True:
                r = self.may_raise(st, ['KeyError'], key, n, fr)
                if r is None:
                    return []
                if r is not st:
                    st = r
                    st.facts[App('has', b, fi)] = True
                    if len(self.sink) and self.sink[-1][0].facts.get(
                            App('raises', Ext('builtins.KeyError'), key)):
                        self.sink[-1][0].facts[App('has', b, fi)] = False
        if ty is None or ty & {'list', 'tuple', 'str', 'bytes', 'other'}:
            r = self.may_raise(st, ['IndexError'], key, n, fr)
            if r is None:
                return []
            st = r
        return [(st, key)]

    def getslice(self, b, lo, hi, step, st, n, fr):
        out = []
        for s, x in self.split(b, st):
            if isinstance(x, EnumM) and self.enum_is_str(x.k[0]):
                x = x.value
            out.extend(self.models.slice(x, lo, hi, step, s, n, fr))
        return out

    def setitem(self, b, i, v, st, n, fr):
        out = []
        for s, x in self.split(b, st):
            if isinstance(x, Ref):
                o = self.o(x, s)
                if o.kind == 'inst' and isinstance(o.cls, Cls):
                    m = self.cls_lookup(o.cls, '__setitem__', s)
                    if m is not None and isinstance(m[1], Fn):
                        out.extend(s2 for s2, _ in self.call(
                            Bound(m[1], x), [i, v], {}, s, n, fr))
                        continue
                if self.is_dictlike(o):
                    out.extend(self.dict_set(x, i, v, s, n, fr))
                    continue
                if o.kind == 'list' and isinstance(i, C):
                    s = s.fork()
                    d = list(o.data)
                    try:
                        d[i.v] = v
                    except (IndexError, TypeError) as e:
                        self.raise_(s, type(e).__name__, (), n, fr)
                        continue
                    s.heap[x.addr] = o.but(data=tuple(d))
                    out.append(s)
                    continue
            ty = self.types_of(x, s)
            if ty is not None and not ty & {'dict', 'list', 'other',
                                            'bytearray'}:
                self.raise_(s.fork(), 'TypeError', (C('item assignment'),),
                            n, fr)
                continue
            if ty is None or ty != frozenset(['dict']):
                s = self.may_raise(s, ['TypeError'], App('setitem', x), n,
                                   fr)
                if s is None:
                    continue
            s = s.fork()
            s.event('setitem', self.freeze(x, s), self.freeze(i, s),
                    self.freeze(v, s), self.loc(n, fr))
            s.facts[App('written', self.freeze(x, s), self.freeze(
                i, s))] = self.freeze(v, s)
            out.append(s)
        return out

    def delitem(self, b, i, st, n, fr):
        out = []
        for s, x in self.split(b, st):
            if isinstance(x, Ref) and self.is_dictlike(self.o(x, s)):
                for s2, v in self.dict_find(x, i, s, n, fr):
                    if v is None:
                        self.raise_(s2.fork(), 'KeyError', (i,), n, fr)
                    else:
                        out.append(self.dict_del(x, i, s2))
                continue
            s = s.fork()
            s.event('delitem', self.freeze(x, s), i, self.loc(n, fr))
            out.append(s)
        return out

    # ------------------------------------------------------------ dictionaries
    def dict_find(self, ref, key, st, n=None, fr=None):
        """Look key up: list of (state, value or None)"""
        o = self.o(ref, st)
        live, out = [st], []
        if not isinstance(key, C) and len(o.data) > self.BIG \
                and not self.is_const(key):
            fk = self.freeze(key, st)
            res = []
            for s, r in self.fork_atom(App('in', fk, App(
                    'keys', self.dict_id(ref, st))), st):
                res.append((s, App('dictget', self.dict_id(ref, st), fk)
                            if r else None))
            return res
        items = list(o.data)
        for item in items:
            nxt = []
            for s in live:
                if isinstance(item, Many):
                    fk = self.freeze(key, s)
                    fm = self.freeze(item, s)
                    for s2, r in self.fork_atom(App('in', fk, fm), s):
                        if r:
                            out.append((s2, App('lookup', fm, fk)))
                        else:
                            nxt.append(s2)
                    continue
                k, v = item
                for s2, r in self.eq(key, k, s, n, fr):
                    if r:
                        out.append((s2, history.recall(v, k, key)))
                    else:
                        nxt.append(s2)
            live = nxt
        for s in live:
            fk = self.freeze(key, s)
            if o.src is None or fk in o.gone:
                out.append((s, None))
            else:
                src = o.src
                for s2, r in self.fork_atom(App('has', src, fk), s):
                    out.append((s2, App('item', src, fk) if r else None))
        return out

    def dict_id(self, ref, st):
        return App('dict', ref.addr) if not isinstance(ref.addr, int) \
            else App('dictat', ref.addr)

    def need_hash(self, key, st, n, fr):
        """State in which key can be hashed (None if it never can)"""
        bad = self.unhashable(key, st)
        if bad is True:
            self.raise_(st.fork(), 'TypeError', (C('unhashable'),), n, fr)
            return None
        if bad is None:
            return self.may_raise(st, ['TypeError'], App(
                'hash', self.freeze(key, st)), n, fr)
        return st

    def dict_get(self, ref, key, st, n, fr):
        out = []
        st = self.need_hash(key, st, n, fr)
        if st is None:
            return []
        for s, v in self.dict_find(ref, key, st, n, fr):
            if v is None:
                o = self.o(ref, s)
                if o.kind == 'inst':
                    m = self.cls_lookup(o.cls, '__missing__', s)
                    if m is not None and isinstance(m[1], Fn):
                        out.extend(self.call(Bound(m[1], ref), [key], {},
                                             s, n, fr))
                        continue
                if 'default_factory' in o.attrs:
                    out.extend(self.call(o.attrs['default_factory'], [], {},
                                         s, n, fr))
                    continue
                self.raise_(s.fork(), 'KeyError', (key,), n, fr)
            else:
                out.append((s, v))
        return out

    def unhashable(self, v, st):
        """True / False / None (unknown)"""
        if isinstance(v, App) and v.op == 'elem':
            # what a dictionary or a set contains has been hashed before
            src = v.args[0]
            if isinstance(src, App) and src.op in ('keys', 'setof'):
                return False
            of = self.types_of(src, st)
            of = (of or frozenset(['list'])) - {'other'}
            if of and of <= {'dict', 'set', 'frozenset', 'str', 'bytes'}:
                return False
        ty = self.types_of(v, st)
        if ty is None:
            return None
        bad = {'list', 'dict', 'set', 'bytearray'}
        if isinstance(v, Ref):
            o = self.o(v, st)
            return o.kind in ('list', 'dict', 'set') or self.is_dictlike(o)
        if ty <= bad:
            return True
        if ty & bad or 'other' in ty and isinstance(v, (Sym,)):
            return None
        return False

    def dict_set(self, ref, key, val, st, n, fr):
        st = self.need_hash(key, st, n, fr)
        if st is None:
            return []
        out = []
        o = self.o(ref, st)
        if not (isinstance(key, C) or self.is_const(key)):
            s = st.fork()
            fk = self.freeze(key, s)
            data = [it for it in o.data
                    if isinstance(it, Many) or it[0] != fk]
            s.heap[ref.addr] = o.but(data=tuple(data) + ((fk, val),))
            return [s]
        s = st.fork()
        data = []
        done = False
        for it in o.data:
            if not isinstance(it, Many) and it[0] == key:
                data.append((key, val))
                done = True
            else:
                data.append(it)
        if not done:
            data.append((key, val))
        s.heap[ref.addr] = o.but(data=tuple(data))
        out.append(s)
        return out

    def dict_del(self, ref, key, st):
        o = self.o(ref, st)
        s = st.fork()
        fk = self.freeze(key, s)
        s.heap[ref.addr] = o.but(
            data=tuple(it for it in o.data
                       if isinstance(it, Many) or it[0] != fk),
            gone=o.gone | {fk} if o.src is not None else o.gone)
        return s

    # -------------------------------------------------------------- iteration
    def iterate(self, v, st, n, fr):
        """list of (state, [elements or Many])"""
        out = []
        for s, x in self.split(v, st):
            out.extend(self.iterate1(x, s, n, fr))
        return out

    def iterate1(self, v, st, n, fr):
        if self.unstarted(v, st) is not None:
            return self.force(v, st)
        if isinstance(v, (Tup, NT)):
            return [(st, list(v.items))]
        if isinstance(v, C):
            if isinstance(v.v, str):
                return [(st, [C(c) for c in v.v])]
            if isinstance(v.v, bytes):
                return [(st, [C(c) for c in v.v])]
            self.raise_(st.fork(), 'TypeError', (C('not iterable'),), n, fr)
            return []
        if isinstance(v, Native) and v.k[0] in ('keys', 'values', 'items'):
            return self.models.iter_view(v, st, n, fr)
        if isinstance(v, Native) and v.k[0] == 'range':
            r = range(*v.k[1])
            if len(r) > self.MANY and r.step == 1:
                return [(st, [self.generic(App('ints', C(r.start),
                                               C(r.stop)))])]
            return [(st, [C(i) for i in r])]
        if isinstance(v, Ref):
            o = self.o(v, st)
            if o.kind in ('list', 'set'):
                q = self.ints(o.data) if o.kind == 'set' else None
                if q is not None:
                    return [(st, [self.generic(q)])]
                return [(st, list(o.data))]
            if o.kind == 'gen':
                s = st.fork()
                s.heap[v.addr] = o.but(data=())
                return [(s, list(o.data))]
            if self.is_dictlike(o):
                return self.models.iter_view(Native('keys', v), st, n, fr)
            if o.kind == 'inst' and isinstance(o.cls, Cls):
                m = self.cls_lookup(o.cls, '__iter__', st)
                if m is not None and isinstance(m[1], Fn):
                    return [r for s, it in self.call(
                        Bound(m[1], v), [], {}, st, n, fr)
                        for r in self.iterate(it, s, n, fr)]
                self.raise_(st.fork(), 'TypeError', (C('not iterable'),),
                            n, fr)
                return []
        if isinstance(v, Cls) and self.classes[v.k[0]].enum:
            ms = []
            for m in self.classes[v.k[0]].members.values():
                if m not in ms:
                    ms.append(m)
            return [(st, ms)]
        ty = self.types_of(v, st)
        if ty is not None and not ty & (SIZED | {'other'}):
            self.raise_(st.fork(), 'TypeError', (C('not iterable'),), n, fr)
            return []
        if ty is None or ty - SIZED:
            s = self.may_raise(st, ['TypeError'], App('iter', v), n, fr)
            if s is None:
                return []
            if s is not st:
                self.refine_ty(s, v, SIZED | {'other'})
            st = s
        f = self.freeze(v, st)
        if isinstance(f, App) and f.op == 'setof':
            f = f.args[0]
        if isinstance(f, App) and f.op == 'enumerate':
            return [(st, [Many(f.args[0], Tup(App('idx', f.args[0]), App(
                'elem', f.args[0])), frozenset())])]
        if isinstance(f, App) and f.op == 'range' and isinstance(
                f.args[0], App) and f.args[0].op == 'len':
            q = f.args[0].args[0]
            return [(st, [Many(q, App('idx', q), frozenset())])]
        return [(st, [Many(f, App('elem', f), frozenset())])]

    MANY = 64

    def ints(self, data):
        """The term of a big set of consecutive numbers, else None"""
        if len(data) <= self.MANY:
            return None
        if not all(isinstance(x, C) and type(x.v) is int for x in data):
            return None
        vs = {x.v for x in data}
        lo, hi = min(vs), max(vs) + 1
        return App('ints', C(lo), C(hi)) if len(vs) == hi - lo else None

    def generic(self, q):
        """Any element of q, standing for all"""
        return Many(q, App('elem', q), frozenset())

    # ------------------------------------------------------------- attributes
    def cls_lookup(self, cls, name, st, after=None):
        """Find name along the MRO: (owner, raw value), or None.
        With `after`, start behind that class."""
        skip = after is not None
        for c in self.mro(cls):
            if skip:
                if c == after:
                    skip = False
                continue
            if isinstance(c, Cls):
                ns = self.obj(('ns', 'c', c.k[0]), st)
                if name in ns.attrs:
                    return c, ns.attrs[name]
                if name in self.classes[c.k[0]].own_slots:
                    return c, App('slot', name)
                if self.classes[c.k[0]].ntfields and \
                        name in self.classes[c.k[0]].ntfields and \
                        not self.classes[c.k[0]].node:
                    return c, App('ntfield', name)
            elif isinstance(c, Ext):
                r = self.models.ext_cls_attr(c, name)
                if r is not None:
                    return c, r
        if skip:
            return None
        return None

    def ext_base(self, cls):
        """The first base from outside (not a plain builtin), if any"""
        for c in self.mro(cls):
            if isinstance(c, Ext) and not c.name.startswith('builtins.') \
                    and not c.name.startswith('enum.'):
                return c
        return None

    def bind(self, raw, obj, cls, st, n, fr):
        """Descriptor protocol on a class attribute"""
        if isinstance(raw, (Fn, Cached)):
            if obj is None:
                return [(st, raw)]
            return [(st, Bound(raw, obj))]
        if isinstance(raw, Prop):
            if obj is None:
                return [(st, raw)]
            return self.call(raw.k[0], [obj], {}, st, n, fr)
        if isinstance(raw, CM):
            return [(st, Bound(raw.k[0], cls))]
        if isinstance(raw, SM):
            return [(st, raw.k[0])]
        if isinstance(raw, Native) and raw.k[0] == 'meth':
            if obj is None:
                return [(st, Native('unbound', raw.k[1], raw.k[2]))]
            if isinstance(obj, EnumM) and raw.k[1] == 'str':
                obj = obj.value
            return [(st, Native('bound', raw.k[1], raw.k[2], obj))]
        return [(st, raw)]

    def getattr(self, b, name, st, n=None, fr=None):
        out = []
        for s, x in self.split(b, st):
            out.extend(self.getattr1(x, name, s, n, fr))
        return out

    def attr_error(self, v, name, st, n, fr):
        self.raise_(st.fork(), 'AttributeError',
                    (C('%s has no attribute %s' % (show(v), name)),), n, fr)
        return []

    def getattr1(self, b, name, st, n, fr):
        if isinstance(b, Mod):
            o = self.obj(('mod', b.k[0]), st)
            if name in o.attrs:
                return [(st, o.attrs[name])]
            if b.k[0] + '.' + name in self.mods:
                if b.k[0] + '.' + name in self.mod_done:
                    return [(st, Mod(b.k[0] + '.' + name))]
            if name == '__version__' and b.k[0] == PKG:
                return [(st, Sym('own_version', ['str']))]
            return self.attr_error(b, name, st, n, fr)
        if isinstance(b, Ref):
            return self.getattr_ref(b, name, st, n, fr)
        if isinstance(b, Cls):
            return self.getattr_cls(b, name, st, n, fr)
        if isinstance(b, Super):
            return self.getattr_super(b, name, st, n, fr)
        if isinstance(b, NT):
            info = self.classes[b.cls.k[0]]
            if name in info.ntfields:
                return [(st, b.items[info.ntfields.index(name)])]
            if name == '__class__':
                return [(st, b.cls)]
            r = self.cls_lookup(b.cls, name, st)
            if r is not None:
                return self.bind(r[1], b, b.cls, st, n, fr)
            if name in ('_asdict', '_replace', '_fields', 'count', 'index'):
                return [(st, Native('bound', 'namedtuple', name, b))]
            return self.attr_error(b, name, st, n, fr)
        if isinstance(b, EnumM):
            if name == 'value':
                return [(st, b.value)]
            if name == 'name':
                return [(st, C(b.k[1]))]
            if name == '__class__':
                return [(st, b.k[0])]
            r = self.cls_lookup(b.k[0], name, st)
            if r is not None:
                return self.bind(r[1], b, b.k[0], st, n, fr)
            if self.enum_is_str(b.k[0]):
                return self.getattr1(b.value, name, st, n, fr)
            return self.attr_error(b, name, st, n, fr)
        if isinstance(b, Ext):
            return [(st, self.models.ext_attr(b, name))]
        if isinstance(b, (Fn, Cached, Partial, Bound, Native, Prop, CM, SM)):
            return self.models.fn_attr(b, name, st, n, fr)
        # plain values and unknowns
        return self.models.value_attr(b, name, st, n, fr)

    def getattr_ref(self, b, name, st, n, fr):
        o = self.o(b, st)
        if name == '__class__':
            return [(st, o.cls)]
        if name == '__dict__' and o.kind == 'inst':
            s = st.fork()
            return [(s, self.new_dict(s, [(C(k), v) for k, v in
                                          o.attrs.items()
                                          if not k.startswith('\0')]))]
        if o.kind in ('inst', 'exc') and isinstance(o.cls, Cls):
            r = self.cls_lookup(o.cls, name, st)
            if r is not None and isinstance(r[1], Prop):
                return self.bind(r[1], b, o.cls, st, n, fr)
            if r is not None and _is_slot(r[1]):
                r = None
            if name in o.attrs:
                v = o.attrs[name]
                if isinstance(v, App) and v.op == 'unset':
                    return self.attr_error(b, name, st, n, fr)
                if isinstance(v, Phi) and App('unset', name) in v.alts:
                    out = []
                    key = App('phi', v)
                    known = st.facts.get(key)
                    for a in ([known] if known is not None
                              else sorted(v.alts, key=show)):
                        s = st.assume(key, a)
                        if a == App('unset', name):
                            self.attr_error(b, name, s, n, fr)
                        else:
                            out.append((s, a))
                    return out
                return [(st, v)]
            if r is not None:
                return self.bind(r[1], b, o.cls, st, n, fr)
            if self.hook_attr is not None:
                h = self.hook_attr(self, st, b, o, name)
                if h is not None:
                    return h
            eb = self.ext_base(o.cls)
            if eb is not None:
                if isinstance(o.src, App):
                    return self.models.value_attr(o.src, name, st, n, fr)
                if name == 'raw_check_key' and 'ECC' in eb.name:
                    return [(st, Native('objmeth', name, b))]
                return [(st, App('attr', App('self', eb.name, b.addr if
                                             isinstance(b.addr, tuple)
                                             else str(o.src)), name))]
            if isinstance(o.src, str) and self.may_have(o.cls, name, st):
                return self.lazy_attr(b, o, name, st)
            if self.is_dictlike(o) and name in models.DICT_METHODS:
                return [(st, Native('bound', 'dict', name, b))]
            d = self.cls_lookup(o.cls, '__getattr__', st)
            if d is not None and isinstance(d[1], Fn):
                return self.call(Bound(d[1], b), [C(name)], {}, st, n, fr)
            if o.kind == 'exc' and name in ('args', 'with_traceback'):
                return [(st, o.attrs.get(name, App('attr', b, name)))]
            return self.attr_error(b, name, st, n, fr)
        return self.models.builtin_attr(b, o, name, st, n, fr)

    def lazy_attr(self, b, o, name, st):
        v = Sym('%s.%s' % (o.src, name))
        s = st.fork()
        s.heap[b.addr] = self.o(b, s).with_attr(name, v)
        return [(s, v)]

    def may_have(self, cls, name, st):
        """Could an instance of cls hold an attribute of that name?"""
        info = self.classes[cls.k[0]]
        if not info.slots_closed:
            return True
        return name in self.slot_names(cls, st)

    def slot_names(self, cls, st=None):
        st = st or self.state0
        names = set()
        for c in self.mro(cls):
            if isinstance(c, Cls):
                v = self.obj(('ns', 'c', c.k[0]), st).attrs.get('__slots__')
                if v is None:
                    continue
                names.update(self.const_strs(v, st))
        return names

    def const_strs(self, v, st):
        out = []
        if isinstance(v, C) and isinstance(v.v, str):
            return [v.v]
        items = []
        if isinstance(v, Tup):
            items = v.items
        elif isinstance(v, Ref):
            o = self.o(v, st)
            items = o.data
        for i in items:
            if isinstance(i, tuple):
                i = i[0]
            if isinstance(i, C):
                out.append(i.v)
        return out

    def getattr_cls(self, b, name, st, n, fr):
        info = self.classes[b.k[0]]
        if name in ('__name__',):
            return [(st, C(info.name))]
        if name == '__mro__':
            return [(st, Tup(*info.mro))]
        if name == '__bases__':
            return [(st, Tup(*info.bases))]
        if name == '__members__' and info.enum:
            s = st.fork()
            return [(s, self.new_dict(s, [(C(k), m) for k, m in
                                          info.members.items()]))]
        if name == '__dict__':
            s = st.fork()
            return [(s, self.new_dict(s, [
                (C(k), v) for k, v in self.obj(
                    ('ns', 'c', b.k[0]), s).attrs.items()]))]
        r = self.cls_lookup(b, name, st)
        if r is not None and _is_slot(r[1]):
            return [(st, Native('slotdescr', b, name))]
        if r is not None:
            raw = r[1]
            if isinstance(raw, Native) and raw.k[0] == 'meth':
                return [(st, Native('unbound', raw.k[1], raw.k[2]))]
            return self.bind(raw, None, b, st, n, fr)
        if name in self.slot_names(b, st):
            return [(st, Native('slotdescr', b, name))]
        if info.ntfields and name in ('_make', '_fields'):
            if name == '_fields':
                return [(st, Tup(*[C(f) for f in info.ntfields]))]
            return [(st, Native('ntmake', b))]
        if name == '__annotations__':
            return [(st, App('annotations', b))]
        eb = self.ext_base(b)
        if eb is not None:
            return [(st, self.models.ext_attr(eb, name))]
        if name in ('__class__', '__new__', '__init__', '__eq__', '__hash__',
                    '__repr__', '__str__', '__setattr__', '__doc__'):
            return [(st, Native('unbound', 'object', name))]
        return self.attr_error(b, name, st, n, fr)

    def getattr_super(self, b, name, st, n, fr):
        after, me = b.k
        if isinstance(me, Ref):
            cls = self.o(me, st).cls
            obj = me
        elif isinstance(me, Cls):
            cls, obj = me, None
        elif isinstance(me, NT):
            cls, obj = me.cls, me
        elif isinstance(me, EnumM):
            cls, obj = me.k[0], me
        else:
            return [(st, App('superattr', me, name))]
        if isinstance(cls, Ext):
            cls = after
        r = self.cls_lookup(cls, name, st, after=after)
        if r is not None and _is_slot(r[1]) and isinstance(obj, Ref):
            v = self.o(obj, st).attrs.get(name)
            if v is not None and v.op != 'unset' if isinstance(v, App) \
                    else v is not None:
                return [(st, v)]
            return self.attr_error(b, name, st, n, fr)
        if r is not None:
            raw = r[1]
            if isinstance(raw, Fn) and obj is None and name != '__new__':
                return [(st, raw)]
            if name == '__new__':
                return [(st, raw.k[0] if isinstance(raw, SM) else raw)]
            return self.bind(raw, obj, cls, st, n, fr)
        if name == '__new__':
            return [(st, Native('objnew', after))]
        o = self.o(me, st) if isinstance(me, Ref) else None
        if name == '__init__':
            return [(st, Native('objinit', me, after))]
        if o is not None and self.is_dictlike(o) and \
                name in models.DICT_METHODS and name not in (
                    '__setattr__', '__getattribute__', '__delattr__',
                    '__init_subclass__'):
            return [(st, Native('bound', 'dict', name, me))]
        if name in ('__setattr__', '__getattribute__', '__eq__', '__repr__',
                    '__str__', '__hash__', '__ne__', '__init_subclass__',
                    '__delattr__', '__format__'):
            return [(st, Native('objmeth', name, me))]
        eb = self.ext_base(cls)
        if eb is not None:
            return [(st, App('attr', App('self', eb.name, str(
                o.src if o else '')), name))]
        return self.attr_error(b, name, st, n, fr)

    def setattr(self, b, name, v, st, n, fr, raw=False):
        out = []
        for s, x in self.split(b, st):
            out.extend(self.setattr1(x, name, v, s, n, fr, raw))
        return out

    def setattr1(self, b, name, v, st, n, fr, raw):
        if isinstance(b, Ref):
            o = self.o(b, st)
            if o.kind in ('inst', 'exc') and isinstance(o.cls, Cls):
                if not raw:
                    m = self.cls_lookup(o.cls, '__setattr__', st)
                    if m is not None and isinstance(m[1], Fn):
                        return [s for s, _ in self.call(
                            Bound(m[1], b), [C(name), v], {}, st, n, fr)]
                r = self.cls_lookup(o.cls, name, st)
                if r is not None and isinstance(r[1], Prop):
                    if r[1].k[1] is None:
                        self.attr_error(b, name, st, n, fr)
                        return []
                    return [s for s, _ in self.call(
                        r[1].k[1], [b, v], {}, st, n, fr)]
                info = self.classes[o.cls.k[0]]
                if info.slots_closed and o.kind == 'inst' and \
                        name not in self.slot_names(o.cls, st):
                    self.attr_error(b, name, st, n, fr)
                    return []
                s = st.fork()
                s.heap[b.addr] = self.o(b, s).with_attr(name, v)
                return [s]
            s = st.fork()
            s.heap[b.addr] = o.with_attr(name, v)
            return [s]
        if isinstance(b, Cls):
            s = st.fork()
            a = ('ns', 'c', b.k[0])
            s.heap[a] = self.obj(a, s).with_attr(name, v)
            return [s]
        if isinstance(b, Mod):
            s = st.fork()
            a = ('mod', b.k[0])
            s.heap[a] = self.obj(a, s).with_attr(name, v)
            return [s]
        s = st.fork()
        s.event('setattr', self.freeze(b, s), name, self.freeze(v, s),
                self.loc(n, fr))
        return [s]

    # --------------------------------------------------------------- calls
    def call(self, f, args, kws, st, n=None, fr=None):
        out = []
        for s, g in self.split(f, st):
            out.extend(self.call1(g, list(args), dict(kws), s, n, fr))
        return out

    def call1(self, f, args, kws, st, n, fr):
        if self.hook_call is not None:
            h = self.hook_call(self, f, args, kws, st, n, fr)
            if h is not None:
                return h
        if isinstance(f, Fn):
            return self.call_fn(f, args, kws, st, n, fr)
        if isinstance(f, Bound):
            return self.call1(f.k[0], [f.k[1]] + args, kws, st, n, fr)
        if isinstance(f, Partial):
            k2 = dict(f.k[2])
            k2.update(kws)
            return self.call(f.k[0], list(f.k[1]) + args, k2, st, n, fr)
        if isinstance(f, Cached):
            s = st.fork()
            s.event('cached', f.k[0], tuple(self.freeze(a, s) for a in args),
                    self.loc(n, fr))
            return self.call_cached(f, args, kws, s, n, fr)
        if isinstance(f, Cls):
            return self.construct(f, args, kws, st, n, fr)
        if isinstance(f, (CM, SM)):
            return self.call(f.k[0], args, kws, st, n, fr)
        if isinstance(f, Ref):
            o = self.o(f, st)
            if o.kind == 'inst' and isinstance(o.cls, Cls):
                m = self.cls_lookup(o.cls, '__call__', st)
                if m is not None:
                    return self.call(Bound(m[1], f), args, kws, st, n, fr)
            self.raise_(st.fork(), 'TypeError', (C('not callable'),), n, fr)
            return []
        if isinstance(f, (Native, Ext)):
            return self.models.call(f, args, kws, st, n, fr)
        if isinstance(f, C):
            self.raise_(st.fork(), 'TypeError', (C('not callable'),), n, fr)
            return []
        return self.models.call_unknown(f, args, kws, st, n, fr)

    def call_cached(self, f, args, kws, st, n, fr):
        """A memoised call: what an earlier call with equal arguments
        gave, else the result of the call, remembered"""
        addr = ('cache', f.k[0])
        key = Tup(*args, *[Tup(C(k), v) for k, v in sorted(kws.items())])
        store = self.obj(addr, st)
        live, out = [st], []
        for item in store.data if store is not None else ():
            if isinstance(item, Many):
                continue
            k, v = item
            if len(k.items) != len(key.items):
                continue
            nxt = []
            for s in live:
                for s2, r in self.eq(k, key, s, n, fr):
                    if r:
                        s2.event('cachehit', f.k[0], self.loc(n, fr))
                        out.append((s2, history.recall(v, k, key)))
                    else:
                        nxt.append(s2)
            live = nxt
        for s in live:
            for s2, v in self.call(f.k[0], args, kws, s, n, fr):
                s2 = s2.fork()
                o = self.obj(addr, s2) or Obj('list', None, {}, ())
                s2.heap[addr] = o.but(data=o.data + ((key, v),))
                out.append((s2, v))
        return out

    def call_fn(self, f, args, kws, st, n, fr):
        info = self.funcs[f.k[0]]
        if self.depth > MAXDEPTH:
            return [(st, self.top('call depth', n, fr))]
        self.seen_funcs.add(info.id)
        nd = info.node
        # bind
        self.counter += 1
        addr = ('fr', self.counter)
        a = nd.args
        names = [x.arg for x in a.posonlyargs + a.args]
        defaults = list(f.k[2])
        ndef = len(a.defaults)
        posdef = dict(zip(names[len(names) - ndef:], defaults[:ndef])) \
            if ndef else {}
        kwdef = dict(zip([k.arg for k, d in zip(a.kwonlyargs, a.kw_defaults)
                          if d is not None], defaults[ndef:]))
        vals = {}
        kws = dict(kws)
        openkw = kws.pop('**', None)
        rest = []
        if any(isinstance(x, Many) for x in args):
            i = next(i for i, x in enumerate(args) if isinstance(x, Many))
            if i >= len(names) and a.vararg:
                rest = args[len(names):]
                args = args[:len(names)]
            else:
                # unknown number of positional arguments
                s2 = self.may_raise(st, ['TypeError'], App(
                    'arity', info.qual, self.freeze(args[i], st)), n, fr)
                if s2 is None:
                    return []
                st = s2
                m = args[i]
                src = m.seq
                args = args[:i]
                for j, nm in enumerate(names[i:]):
                    if nm not in kws:
                        args.append(App('item', src, C(j)))
        elif len(args) > len(names):
            if not a.vararg:
                self.raise_(st.fork(), 'TypeError',
                            (C('too many arguments for ' + info.qual),),
                            n, fr)
                return []
            rest = args[len(names):]
            args = args[:len(names)]
        for nm, v in zip(names, args):
            vals[nm] = v
        for nm in list(kws):
            if nm in names or nm in [k.arg for k in a.kwonlyargs]:
                if nm in vals:
                    self.raise_(st.fork(), 'TypeError',
                                (C('multiple values for ' + nm),), n, fr)
                    return []
                vals[nm] = kws.pop(nm)
        if kws and not a.kwarg:
            self.raise_(st.fork(), 'TypeError',
                        (C('unexpected keyword %s for %s'
                           % (', '.join(sorted(kws)), info.qual)),), n, fr)
            return []
        missing = [nm for nm in names + [k.arg for k in a.kwonlyargs]
                   if nm not in vals]
        states = [(st, vals)]
        for nm in missing:
            nxt = []
            for s, vv in states:
                d = posdef.get(nm, kwdef.get(nm))
                if openkw is not None:
                    src = openkw
                    for s2, r in self.fork_atom(App('has', src, C(nm)), s):
                        v2 = dict(vv)
                        if r:
                            v2[nm] = App('item', src, C(nm))
                        elif d is not None:
                            v2[nm] = d
                        else:
                            self.raise_(s2.fork(), 'TypeError',
                                        (C('missing ' + nm),), n, fr)
                            continue
                        nxt.append((s2, v2))
                    continue
                if d is None:
                    self.raise_(s.fork(), 'TypeError',
                                (C('missing argument %s of %s'
                                   % (nm, info.qual)),), n, fr)
                    continue
                v2 = dict(vv)
                v2[nm] = d
                nxt.append((s, v2))
            states = nxt
        out = []
        for s, vv in states:
            s = s.fork()
            vv = dict(vv)
            if openkw is not None and not a.kwarg and False:
                pass
            if a.vararg:
                vv[a.vararg.arg] = Tup(*rest)
            if a.kwarg:
                src, gone = openkw, frozenset()
                if openkw is not None:
                    if isinstance(openkw, App) and openkw.op == 'minus':
                        src, gone = openkw.args
                    gone = frozenset(gone) | {C(x) for x in vv}
                vv[a.kwarg.arg] = self.new(s, Obj(
                    'dict', Ext('builtins.dict'), None,
                    tuple((C(k), v) for k, v in kws.items()), src, gone))
            elif openkw is not None:
                s2 = self.may_raise(s, ['TypeError'], App(
                    'extrakw', info.qual, openkw), n, fr)
                if s2 is None:
                    continue
                s = s2.fork()
            out.extend(self.run_fn(f, info, addr, vv, s, n, fr))
        return out

    def run_fn(self, f, info, addr, vals, st, n, fr):
        nd = info.node
        if info.is_gen and self.lazy_fn == info.id:
            st.heap[addr] = Obj('frame', None, vals)
            return [(st, self.thunk(st, ('fn', info, Frame(
                addr, info.mod, info, f.k[1], None, info.file))))]
        self.lazy_fn = None
        if info.is_gen:
            vals = dict(vals)
            vals['\0yield'] = self.new(st, Obj(
                'gen', Ext('builtins.generator'), None, ()))
        st.heap[addr] = Obj('frame', None, vals)
        nfr = Frame(addr, info.mod, info, f.k[1], None, info.file)
        self.depth += 1
        self.callstack.append(info)
        try:
            if isinstance(nd, ast.Lambda):
                return self.ev(nd.body, nfr, st)
            out = []
            for k, s, v in self.ex(nd.body, nfr, st):
                if info.is_gen:
                    v = self.obj(addr, s).attrs['\0yield']
                elif k == 'n':
                    v = NONE
                elif k != 'r':
                    continue
                out.append((s, v))
            if not self.keeps_frame(info):
                for s, _ in out:
                    s.heap.pop(addr, None)
            if len(out) > 160:
                out = self.merge(out)
            if len(out) > 160:
                # merge returns
                parts = {}
                for s, v in out:
                    parts.setdefault(self.crucial(s), []).append((s, v))
                if len(parts) > 160:
                    parts = {None: out}
                out = []
                for part in parts.values():
                    vals_ = []
                    for _, v in part:
                        if v not in vals_:
                            vals_.append(v)
                    out.append((self.join([s for s, _ in part]), vals_[0]
                                if len(vals_) == 1
                                else Phi(frozenset(vals_))))
            return out
        finally:
            self.depth -= 1
            self.callstack.pop()

    def keeps_frame(self, info):
        """May something made by the function still need its variables?"""
        r = self.kept.get(info.id)
        if r is None:
            r = self.kept[info.id] = any(
                isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef,
                               ast.Lambda, ast.ClassDef))
                for y in ast.iter_child_nodes(info.node)
                for x in ast.walk(y))
        return r

    # ---------------------------------------------------------- construction
    def construct(self, cls, args, kws, st, n, fr):
        info = self.classes[cls.k[0]]
        if info.enum:
            return self.models.enum_call(cls, args, kws, st, n, fr)
        # __new__
        new = self.cls_lookup(cls, '__new__', st)
        if new is not None and isinstance(new[1], (Fn, SM)):
            raw = new[1].k[0] if isinstance(new[1], SM) else new[1]
            objs = self.call(raw, [cls] + args, kws, st, n, fr)
        elif info.ntfields:
            return self.nt_make(cls, args, kws, st, n, fr)
        else:
            objs = [self.alloc(cls, args, kws, st)]
        out = []
        init = self.cls_lookup(cls, '__init__', st)
        for s, obj in objs:
            if isinstance(obj, NT) or not isinstance(obj, Ref):
                out.append((s, obj))
                continue
            if init is not None and isinstance(init[1], Fn):
                out.extend((s2, obj) for s2, _ in self.call(
                    Bound(init[1], obj), args, kws, s, n, fr))
            else:
                o = self.o(obj, s)
                if self.is_dictlike(o):
                    out.extend((s2, obj) for s2, _ in
                               self.models.m_dict_init(obj, args, kws, s, n,
                                                       fr))
                    continue
                eb = self.ext_base(cls)
                exc = o.kind == 'exc'
                if (args or kws) and eb is None and not exc:
                    self.raise_(s.fork(), 'TypeError',
                                (C('%s() takes no arguments' % info.name),),
                                n, fr)
                    continue
                if exc:
                    s = s.fork()
                    s.heap[obj.addr] = self.o(obj, s).with_attr(
                        'args', Tup(*args))
                elif eb is not None:
                    # instance of something from outside: a term
                    for s2, t in self.models.call(eb, args, kws, s, n, fr):
                        s2 = s2.fork()
                        s2.heap[obj.addr] = self.o(obj, s2).but(src=t)
                        out.append((s2, obj))
                    continue
                out.append((s, obj))
        return out

    def alloc(self, cls, args, kws, st):
        st = st.fork()
        kind = 'inst'
        for b in self.mro(cls):
            if isinstance(b, Ext) and self.py_exc(b):
                kind = 'exc'
        attrs = {}
        if kind == 'exc':
            attrs['args'] = Tup(*args)
        ref = self.new(st, Obj(kind, cls, attrs))
        return st, ref

    def nt_make(self, cls, args, kws, st, n, fr):
        info = self.classes[cls.k[0]]
        fields = info.ntfields
        if any(isinstance(x, Many) for x in args):
            i = next(i for i, x in enumerate(args) if isinstance(x, Many))
            src = args[i].seq
            s = self.may_raise(st, ['TypeError'], App(
                'arity', len(fields), src), n, fr)
            if s is None:
                return []
            s = s.fork()
            if not self.know_len(s, src, len(fields) - i):
                self.raise_(s.fork(), 'TypeError', (C(info.name),), n, fr)
                return []
            items = list(args[:i]) + [App('item', src, C(j))
                                      for j in range(len(fields) - i)]
            return [(s, NT(cls, *items))]
        if len(args) > len(fields):
            self.raise_(st.fork(), 'TypeError', (C(info.name),), n, fr)
            return []
        vals = dict(zip(fields, args))
        for k, v in kws.items():
            if k not in fields or k in vals:
                self.raise_(st.fork(), 'TypeError', (C(info.name + k),),
                            n, fr)
                return []
            vals[k] = v
        if len(vals) != len(fields):
            self.raise_(st.fork(), 'TypeError', (C(info.name),), n, fr)
            return []
        return [(st, NT(cls, *[vals[f] for f in fields]))]

    # -------------------------------------------------------------- freezing
    def freeze(self, v, st, seen=()):
        """Immutable snapshot of a value as a term"""
        if isinstance(v, Phi):
            k = st.facts.get(App('phi', v))
            if k is not None:
                return self.freeze(k, st, seen)
            return v
        if isinstance(v, Tup):
            if any(isinstance(x, (Ref, Tup, NT, Phi, Many))
                   for x in v.items):
                return Tup(*[self.freeze(x, st, seen) for x in v.items])
            return v
        if isinstance(v, NT):
            return NT(v.cls, *[self.freeze(x, st, seen) for x in v.items])
        if isinstance(v, Many):
            return Many(v.seq, self.freeze(v.val, st, seen), v.conds)
        if isinstance(v, Ref):
            if v.addr in seen:
                return App('cycle')
            o = self.o(v, st)
            if o is None:
                return v
            return self.freeze_obj(v, o, st, seen + (v.addr,))
        return v

    def freeze_obj(self, v, o, st, seen):
        f = lambda x: self.freeze(x, st, seen)   # noqa
        if o.kind in ('list', 'gen'):
            return App('list', *[f(x) for x in o.data])
        if o.kind == 'set':
            q = self.ints(o.data)
            if q is not None:
                return App('setof', q)
            return App('set', frozenset(f(x) for x in o.data))
        if o.kind == 'dict':
            items = tuple(f(x) if isinstance(x, Many) else
                          Tup(f(x[0]), f(x[1])) for x in o.data)
            if o.src is not None:
                if not items and not o.gone:
                    return o.src
                return App('dictsrc', o.src, o.gone, *items)
            return App('dict', *items)
        if o.kind == 'inst':
            if isinstance(o.src, App):
                return o.src
            items = tuple(f(x) if isinstance(x, Many) else
                          Tup(f(x[0]), f(x[1])) for x in o.data)
            if isinstance(o.src, str):
                # open object: named; list what has been overwritten
                return App('obj', o.src)
            return App('inst', o.cls, tuple(sorted(
                (k, f(x)) for k, x in o.attrs.items()
                if not k.startswith('\0'))), *items)
        if o.kind == 'exc':
            return App('excobj', o.cls, tuple(
                f(x) for x in (o.attrs.get('args', Tup())).items)
                if isinstance(o.attrs.get('args'), Tup) else ())
        if o.kind == 'hasher':
            return App('hasher', o.attrs['name'], f(o.attrs['data']))
        return App('objat', str(v.addr))

    def freeze_data(self, o, st):
        return tuple(self.freeze(x, st) if isinstance(x, Val) else
                     tuple(self.freeze(y, st) for y in x) for x in o.data)

    # ------------------------------------------------------------ entry points
    def mod_attr(self, mod, name):
        a = ('mod', PKG + ('.' + mod if mod else ''))
        o = self.base.get(a)
        if o is None or name not in o.attrs:
            raise AnalysisError('%s.%s not found' % (mod, name))
        return o.attrs[name]

    def find(self, path):
        """'message.base:Message.serialize' -> raw value"""
        mod, _, rest = path.partition(':')
        parts = rest.split('.')
        v = self.mod_attr(mod, parts[0])
        for p in parts[1:]:
            if isinstance(v, Cls):
                r = self.cls_lookup(v, p, self.state0)
                if r is None:
                    raise AnalysisError('%s not found' % path)
                v = r[1]
            else:
                raise AnalysisError('%s not found' % path)
        return v

    def state(self):
        """A state about which nothing is known (but what an earlier call
        established, when one is supposed)"""
        self.nstates += 1
        if self.past is not None and self.past[0] == self.nstates:
            return self.past[1].fork()
        return State()

    def keep(self, outs):
        """Remember the paths that leave something lasting behind"""
        if self.traces is not None:
            for o in outs:
                a = history.changed(self, o.st)
                if a:
                    self.traces.append((self.nstates, o.st, a))
        return outs

    def run(self, f, args=(), kws=None, st=None, implicit='try'):
        """Analyse a call; returns list of Outcome"""
        st = st if st is not None else self.state()
        saved = self.sink, self.tries, self.implicit_mode, self.depth
        self.sink, self.tries = [], []
        self.implicit_mode = implicit
        self.depth = 0
        try:
            res = self.call(f, list(args), dict(kws or {}), st)
            outs = [Outcome('return', s, v, self) for s, v in res]
            outs += [Outcome('raise', s, e, self) for s, e in self.sink]
        finally:
            self.sink, self.tries, self.implicit_mode, self.depth = saved
        return self.keep(outs)

    def run_attr(self, obj, name, args=(), kws=None, st=None,
                 implicit='try'):
        """obj.name(*args) as one analysed operation"""
        st = st if st is not None else self.state()
        saved = self.sink, self.tries, self.implicit_mode, self.depth
        self.sink, self.tries = [], []
        self.implicit_mode = implicit
        self.depth = 0
        try:
            res = []
            for s, m in self.getattr(obj, name, st):
                res.extend(self.call(m, list(args), dict(kws or {}), s))
            outs = [Outcome('return', s, v, self) for s, v in res]
            outs += [Outcome('raise', s, e, self) for s, e in self.sink]
        finally:
            self.sink, self.tries, self.implicit_mode, self.depth = saved
        return self.keep(outs)

    def read(self, obj, name, st):
        """obj.name as outcomes"""
        saved = self.sink, self.tries
        self.sink, self.tries = [], []
        try:
            outs = [Outcome('return', s, v, self)
                    for s, v in self.getattr(obj, name, st)]
            outs += [Outcome('raise', s, e, self) for s, e in self.sink]
        finally:
            self.sink, self.tries = saved
        return self.keep(outs)

    def open_inst(self, cls, name, st, attrs=None):
        """An instance of cls about which only `attrs` is known"""
        return self.new(st, Obj('inst', cls, dict(attrs or {}), (), name),
                        ('o', name))


class Outcome:
    def __init__(self, kind, st, val, eng):
        self.kind, self.st, self.val, self.eng = kind, st, val, eng

    @property
    def ok(self):
        return self.kind == 'return'

    @property
    def exc(self):
        return self.eng.o(self.val, self.st)

    @property
    def exc_cls(self):
        return self.exc.cls

    @property
    def exc_name(self):
        return self.eng.cls_name(self.exc.cls)

    @property
    def where(self):
        if self.kind == 'raise':
            v = self.exc.attrs.get('\0loc')
            return v.v if isinstance(v, C) else '?'
        return ''

    def frozen(self):
        return self.eng.freeze(self.val, self.st)

    def __repr__(self):
        if self.ok:
            return 'return %s' % show(self.frozen())
        return 'raise %s' % self.eng.exc_text(self.val, self.st)


def contains(v, x):
    """Does term v contain term x?"""
    if v == x:
        return True
    if isinstance(v, Val):
        return any(contains(a, x) for a in v.k)
    if isinstance(v, (tuple, frozenset)):
        return any(contains(a, x) for a in v)
    return False


def _is_slot(raw):
    return isinstance(raw, App) and raw.op == 'slot'


def _meet(a, b):
    if a is None:
        return b or (None, False, None, False)
    if b is None:
        return a
    lo, ls = a[0], a[1]
    if b[0] is not None and (lo is None or b[0] > lo or
                             (b[0] == lo and b[1])):
        lo, ls = b[0], b[1]
    hi, hs = a[2], a[3]
    if b[2] is not None and (hi is None or b[2] < hi or
                             (b[2] == hi and b[3])):
        hi, hs = b[2], b[3]
    return (lo, ls, hi, hs)


def _hull(ivs):
    lo, ls, hi, hs = ivs[0]
    for a, b, c, d in ivs[1:]:
        if lo is not None and (a is None or a < lo or (a == lo and ls)):
            lo, ls = a, b
        if hi is not None and (c is None or c > hi or (c == hi and hs)):
            hi, hs = c, d
    return (lo, ls, hi, hs)


def _empty(m):
    lo, ls, hi, hs = m
    return lo is not None and hi is not None and (
        lo > hi or (lo == hi and (ls or hs)))


def _c3(seqs):
    res = []
    seqs = [list(s) for s in seqs]
    while True:
        seqs = [s for s in seqs if s]
        if not seqs:
            return res
        for s in seqs:
            c = s[0]
            if not any(c in t[1:] for t in seqs):
                break
        else:
            raise AnalysisError('inconsistent class hierarchy')
        res.append(c)
        for s in seqs:
            if s[0] == c:
                del s[0]


def _as_load(t):
    import copy
    t2 = copy.copy(t)
    t2.ctx = ast.Load()
    return t2


def _walk_own(n):
    """ast.walk without entering nested functions"""
    todo = [n]
    while todo:
        x = todo.pop()
        yield x
        for c in ast.iter_child_nodes(x):
            if not isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef,
                                  ast.AsyncFunctionDef)):
                todo.append(c)

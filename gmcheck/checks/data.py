"""Rules about containers, structured dictionaries and validators."""
from . import prop
from .common import *  # noqa: F401,F403
from .common import (
    App, C, Cls, EnumM, FALSE, Fail, Many, NONE, NT, R, Ref, Sym, TRUE, Tup,
    Undecided, is_exc, one_field, show)
from .crypto import check_verify
from .fields import admissible, w_member, decoded
from .frame import slot_pairs, typed
from ..engine import AnalysisError
from ..world import PRIV

TYPES = ['None', 'bool', 'int', 'float', 'str', 'bytes', 'list', 'dict']
HEADER, NODE = R.HEADER, R.NODE
MASK = 'datastructures.masking:Mask'
KEY64 = App('input', 'KEY', 64)


def typed_as(t, name='V'):
    return NONE if t == 'None' else Sym(name, [t])


def raises(w, exc, term):
    return App('raises', w.e.exc_class(exc), term)


def bounded(w, v, lo, hi):
    def make(st):
        st.iv[((v, 1),)] = (lo, False, hi, False)
        return v, st
    return make


def others(*types):
    """Values of every type but these"""
    return [(t, lambda st, t=t: (typed_as(t), st), 'no', None)
            for t in TYPES if t not in types and t != 'None']


def values(w, kind, name='V'):
    """A partition of the values one may offer for this kind of value:
    [(label, make(state) -> (value, state), 'ok'/'no', what is kept)]; what
    is kept: None for the same value, else a function
    (st, kept, given) -> complaint or None"""
    e = w.e
    k = kind[0]
    out = []

    def add(label, make, verdict='ok', kept=None):
        out.append((label, make, verdict, kept))

    def fixed(v):
        return lambda st: (v, st)
    if k == 'any':
        for t in TYPES:
            if t != 'None':
                add(t, fixed(typed_as(t, name)))
    elif k == 'int':
        v = Sym(name, ['int'])
        lo, hi = kind[1:]
        add('in-range', bounded(w, v, lo, hi))
        if lo is not None:
            add('least', fixed(C(lo)))
            add('below', bounded(w, v, None, lo - 1), 'no')
            add('just-below', fixed(C(lo - 1)), 'no')
        if hi is not None:
            add('greatest', fixed(C(hi)))
            add('above', bounded(w, v, hi + 1, None), 'no')
            add('just-above', fixed(C(hi + 1)), 'no')
        out.extend(others('int'))
    elif k == 'str':
        v = Sym(name, ['str'])

        def length(lo, hi):
            def make(st):
                st.iv[((App('len', v), 1),)] = (lo, False, hi, False)
                return v, st
            return make
        if kind[1] is None:
            add('text', fixed(v))
        else:
            add('short', length(0, kind[1]))
            add('longest', length(kind[1], kind[1]))
            add('long', length(kind[1] + 1, None), 'no')
            add('just-too-long', length(kind[1] + 1, kind[1] + 1), 'no')
        add('empty', fixed(C('')))
        out.extend(others('str'))
    elif k in ('bytes', 'mask'):
        v = Sym(name, ['bytes'])

        def mask(st, got, given):
            if not isinstance(got, Ref) or e.o(got, st).cls != w.cls(MASK):
                return 'is %s' % show(e.freeze(got, st))
            for s, b in w.attr(got, 'byte_repr', st):
                if b != given:
                    return 'has the bytes %s' % show(b)
        if k == 'mask':
            def make(st):
                # no wider question about masks of other lengths
                st.iv[((App('len', v), 1),)] = (32, False, 32, False)
                return v, st
            add('bytes', make, kept=mask)
        else:
            add('bytes', fixed(v))
            add('empty', fixed(C(b'')))
        out.extend(others('bytes'))
    elif k == 'bool':
        add('true', fixed(TRUE))
        add('false', fixed(FALSE))
        add('bool', fixed(Sym(name, ['bool'])))
        out.extend(others('bool'))
    elif k == 'dict':
        add('dict', fixed(Sym(name, ['dict'])))
        add('empty', lambda st: (e.new_dict(st, []), st))
        out.extend(others('dict'))
    elif k == 'ip':
        for t in ('str', 'other-str'):
            v = Sym(name, ['str'])

            def make(st, v=v, good=t == 'str'):
                st.facts[raises(w, 'ValueError', App('ip', v))] = not good
                return v, st
            add('address' if t == 'str' else 'no-address', make,
                'ok' if t == 'str' else 'no')
        for t in ('float', 'list', 'dict'):
            v = typed_as(t, name)

            def make(st, v=v):
                st.facts[raises(w, 'ValueError', App('ip', v))] = True
                return v, st
            add(t, make, 'no')
    elif k == 'version':
        v = Sym(name, ['str'])

        def ver(good):
            def make(st):
                st.facts[raises(w, 'ValueError', App('version', v))] = \
                    not good
                return v, st
            return make
        add('version', ver(True))
        add('no-version', ver(False), 'no')
        for t in ('bool', 'int', 'float', 'list', 'dict'):
            v2 = typed_as(t, name)

            def make(st, v=v2):
                st.facts[raises(w, 'TypeError', App('verarg', App(
                    'version', v)))] = True
                return v, st
            add(t, make, 'no')
    elif k in ('enum', 'member'):
        for n in sorted(R.ENUMS[kind[1]]):
            def same(st, got, given, n=n):
                if got != w_member(w, kind[1], n):
                    return 'is %s' % show(e.freeze(got, st))
            if k == 'enum':
                add(n, fixed(C(R.ENUMS[kind[1]][n])), kept=same)
            add('member-' + n, lambda st, n=n: (w_member(
                w, kind[1], n), st), kept=same)
        for t in TYPES:
            if t == 'None':
                continue
            v = typed_as(t, name)

            def make(st, v=v):
                for n in R.ENUMS[kind[1]].values():
                    st.facts[App('eq', *sorted([v, C(n)], key=show))] = \
                        False
                st.facts[App('isvalue', w.cls(kind[1]), v)] = False
                return v, st
            add('other-' + t, make, 'no')
        add('empty', fixed(C('')), 'no')
    elif k == 'part':
        cls, needed = kind[1:]

        def made(st, got, given):
            if not isinstance(got, Ref) or e.o(got, st).cls != w.cls(cls):
                return 'is %s' % show(e.freeze(got, st))
            src = e.o(got, st).attrs.get('\0made')
            want = e.freeze(given, st)
            if src != want and not (
                    src == App('dict') and want == App('dict')):
                return 'is made of %s' % show(src)

        def none(st, got, given):
            if got != NONE:
                return 'is %s' % show(e.freeze(got, st))
        v = Sym(name, ['dict'])

        def full(st):
            st.iv[((App('len', v), 1),)] = (1, False, None, False)
            return v, st
        add('data', full, kept=made)
        add('no-data', lambda st: (e.new_dict(st, []), st),
            kept=made if needed else none)
        add('object', lambda st: (w.open_msg(w.cls(cls), name, st), st))
        if not needed:
            add('absent', fixed(NONE))
        out.extend(others('dict'))
    elif k == 'entries':
        cls = kind[1]
        items = R.RECORDS[cls]

        def entries(st, got, given):
            if not isinstance(got, Ref) or e.o(got, st).cls != w.cls(cls):
                return 'is %s' % show(e.freeze(got, st))
            data = dict(e.o(got, st).data)
            for i in items:
                if data.get(C(i)) != Sym(name + '.' + i):
                    return 'has %s as %s' % (show(data.get(C(i))), i)

        def none(st, got, given):
            if got != NONE:
                return 'is %s' % show(e.freeze(got, st))
        add('data', lambda st: (e.new_dict(st, [
            (C(i), Sym(name + '.' + i)) for i in sorted(items)]), st),
            kept=entries)
        add('no-data', lambda st: (e.new_dict(st, []), st), kept=none)
        out.extend(others('dict'))
    else:
        raise AnalysisError('kind of value %s' % k)
    return out


def make_container(w, cls, kws, st, implicit='all'):
    """Outcomes of building a container whose parts are made by contract"""
    w.top = w.cls(cls)
    try:
        return w.run(w.cls(cls), [], kws, st=st, implicit=implicit)
    finally:
        w.top = None


def some(w, kind, st, name):
    """One acceptable value of a kind"""
    for label, make, verdict, kept in values(w, kind, name):
        if verdict == 'ok':
            return make(st)
    raise AnalysisError('no acceptable value of %s' % (kind,))


def required(w, cls, st, but=()):
    kws = {}
    for f, (kind, req, default) in R.CONTAINERS[cls].items():
        if req and f not in but:
            kws[f], st = some(w, kind, st, 'R.' + f)
    return kws, st


def made_failed(st):
    return any(isinstance(k, App) and k.op == 'madeok' and v is False
               for k, v in st.facts.items())


def refused(w, o, f, v, what):
    """The outcome must be a field error about f and its value v"""
    if o.ok:
        w.fail(o, '%s is accepted' % what)
    if not is_exc(w, o, 'FieldError'):
        w.fail(o, '%s is refused with %s' % (what, o.exc_name))
    if o.exc.attrs.get('field') != C(f):
        w.fail(o, '%s: the field error names %s' % (
            what, show(w.e.freeze(o.exc.attrs.get('field', NONE), o.st))))
    if v is not None:
        got = o.exc.attrs.get('value', NONE)
        if got != v and w.e.freeze(got, o.st) != w.e.freeze(v, o.st):
            w.fail(o, '%s: the field error has the value %s' % (
                what, show(w.e.freeze(got, o.st))))


def subs(t):
    """Everything inside a term"""
    out, stack = set(), [t]
    while stack:
        a = stack.pop()
        out.add(a)
        if isinstance(a, (App, Tup)):
            stack.extend(a.k if isinstance(a, Tup) else a.args)
        elif isinstance(a, (tuple, frozenset)):
            stack.extend(a)
    return out


# ------------------------------------------------------------------ C30

VALIDATORS = [
    ('validate_varchar128', ('str', 128), {}),
    ('validate_varchar', ('str', 17), {'max_length': C(17)}),
    ('validate_varchar', ('str', 0), {'max_length': C(0)}),
    ('validate_integer', ('int', None, None), {}),
    ('validate_positive_integer', ('int', 1, None), {}),
    ('validate_port', ('int', 1, 65535), {}),
    ('validate_ipaddress', ('ip',), {}),
    ('validate_boolean', ('bool',), {}),
    ('validate_version', ('version',), {}),
    ('validate_dict', ('dict',), {}),
]


@prop('C30')
def c30(x, w):
    x.rule('Each validator is run on symbolic values of a partition of all '
           'values (by type, then by range or length on either side of '
           'every limit, and on the limits themselves): values of the '
           'documented set are accepted on every abstract path, every '
           'other one is refused on every path with a field error carrying '
           'the given name and the value.')
    x.assume('which texts are addresses and versions is what ipaddress and '
             'semantic_version say')

    def one(fn, kws, make, verdict, spec, give):
        st = w.e.state()
        v, st = make(st)
        args, kw = ([C('F'), v], {}) if give == 'positional' else (
            [], {'field_name': C('F'), 'value': v})
        if kws and give == 'positional':
            args += list(kws.values())
        else:
            kw.update(kws)
        f = w.e.mod_attr('validators', fn)
        outs = w.run(f, args, kw, st=st, implicit='all')
        if not outs:
            raise Undecided('no outcome')
        for o in outs:
            if verdict == 'ok':
                if not o.ok:
                    w.fail(o, 'an allowed value is refused')
            else:
                refused(w, o, 'F', v, 'a value outside')
    for fn, kind, kws in VALIDATORS:
        cases = values(w, kind)
        if kind[0] != 'ip':
            cases.append(('None', lambda st: (NONE, st), 'no', None))
        for label, make, verdict, _ in cases:
            for give in ('positional', 'keyword'):
                x.ob('%s%s/%s/%s' % (fn, ''.join(
                    '-%s' % show(k) for k in kws.values()), label, give),
                    one, fn, kws, make, verdict, kind, give)

    def unless(result):
        st = w.e.state()
        check = Sym('CHECK', ['other'])
        f = w.e.mod_attr('validators', 'fail_unless')
        v = Sym('V')
        call = App('call', check, v)
        n = 0
        for o in w.run(f, [C('F'), v], {'check': check, 'fail_msg': C('M')},
                       st=st):
            known = [b for k, b in o.st.facts.items()
                     if isinstance(k, App) and call in subterms_of(k)
                     and k.op != 'raises']
            if not known:
                w.fail(o, 'the check is not asked about the value')
            n += 1
            if o.ok != known[0]:
                w.fail(o, 'the answer of the check is not followed')
            if not o.ok:
                refused(w, o, 'F', v, 'a failing value')
        if n < 2:
            raise Fail('the check decides nothing')
    x.ob('fail_unless', unless, None)


def subterms_of(t):
    out, stack = set(), [t]
    while stack:
        a = stack.pop()
        if isinstance(a, App):
            out.add(a)
            stack.extend(a.args)
    return out


# ------------------------------------------------------------------ C32

@prop('C32')
def c32(x, w):
    x.rule('For every declared field of every container, with all required '
           'fields given, values of a partition of all values (by type, '
           'range, length, nested structure, on both sides of every limit) '
           'are offered: each abstract path accepts the documented ones and '
           'keeps them converted as documented, and refuses all others '
           'with a field error naming the field and carrying the value.')
    x.assume('parts made from nested data obey the same rules (induction)')

    def one(cls, f, make, verdict, kept):
        st = w.e.state()
        v, st = make(st)
        kws, st = required(w, cls, st, but=(f,))
        kws[f] = v
        good = 0
        for o in make_container(w, cls, kws, st):
            if made_failed(o.st):
                if o.ok or not w.is_lib_error(o):
                    w.fail(o, 'bad nested data is not refused')
                continue
            if verdict == 'no':
                refused(w, o, f, v, 'a bad value of %s' % f)
                continue
            if not o.ok:
                w.fail(o, 'a good value of %s is refused' % f)
            good += 1
            for s, got in w.attr(o.val, f, o.st):
                if kept is None:
                    if got != v and w.e.freeze(got, s) != w.e.freeze(v, s):
                        w.fail(o, '%s becomes %s' % (f, show(w.e.freeze(
                            got, s))))
                else:
                    bad = kept(s, got, v)
                    if bad:
                        w.fail(o, '%s %s' % (f, bad))
        if verdict == 'ok' and not good:
            raise Fail('a good value of %s is never accepted' % f)
    for cls, fields in R.CONTAINERS.items():
        for f, (kind, req, default) in fields.items():
            for label, make, verdict, kept in values(w, kind):
                x.ob('%s.%s/%s' % (cls, f, label), one, cls, f, make,
                     verdict, kept)

    def declared(cls):
        names = set(w.e.slot_names(w.cls(cls)))
        if names != set(R.CONTAINERS[cls]):
            raise Fail('the fields of %s are %s' % (cls, sorted(
                names ^ set(R.CONTAINERS[cls]))))


# ------------------------------------------------------------------ C31

@prop('C31')
def c31(x, w):
    x.rule('For every container: without a required field (or with null in '
           'it), and with an unknown field, every abstract path ends in a '
           'field error naming it; null in an optional field is kept '
           'without validation; with unknown '
           'validators in place of the declared ones every path that keeps '
           'a value has asked each validator of the field about it and '
           'none raised; absent optional fields get their default; '
           'building from an unknown mapping ends in a container or a '
           'library error only.')

    def missing(cls, f, null):
        st = w.e.state()
        kws, st = required(w, cls, st, but=(f,))
        if null:
            kws[f] = NONE
        for o in make_container(w, cls, kws, st):
            if made_failed(o.st):
                continue
            refused(w, o, f, NONE, '%s %s' % (
                'null in' if null else 'absence of', f))

    def unknown(cls, name, v):
        st = w.e.state()
        kws, st = required(w, cls, st)
        kws[name] = v
        for o in make_container(w, cls, kws, st):
            if made_failed(o.st):
                continue
            refused(w, o, name, v, 'the unknown field %s' % name)

    def null(cls, f):
        st = w.e.state()
        kws, st = required(w, cls, st)
        kws[f] = NONE
        for o in make_container(w, cls, kws, st):
            if made_failed(o.st):
                continue
            if not o.ok:
                w.fail(o, 'null in the optional field %s is refused' % f)
            if w.val(o.val, f, o.st) != NONE:
                w.fail(o, 'null in %s becomes %s' % (f, show(
                    w.val(o.val, f, o.st))))

    def defaults(cls):
        st = w.e.state()
        kws, st = required(w, cls, st)
        for o in make_container(w, cls, kws, st):
            if made_failed(o.st):
                continue
            if not o.ok:
                w.fail(o, 'absent optional fields are refused')
            for f, (kind, req, default) in R.CONTAINERS[cls].items():
                if req:
                    continue
                want = NONE if default is None else App(default)
                if w.val(o.val, f, o.st) != want:
                    w.fail(o, 'the default of %s is %s' % (f, show(
                        w.val(o.val, f, o.st))))

    def consulted(cls, f, t):
        e = w.e
        st = e.state()
        kws, st = required(w, cls, st, but=(f,))
        v = typed_as(t)
        kws[f] = v
        asked = {g: [Sym('CHECK%d.%s' % (i, g), ['other']) for i in (1, 2)]
                 for g in R.CONTAINERS[cls]}
        ns = ('ns', 'c', w.cls(cls).k[0])
        st.heap[ns] = e.obj(ns, st).with_attr('__slots__', e.new_dict(st, [
            (C(g), Tup(*a)) for g, a in asked.items()]))
        for o in make_container(w, cls, kws, st):
            calls = {}
            for k, val in o.st.facts.items():
                if isinstance(k, App) and k.op == 'raises' and \
                        isinstance(k.args[1], App) and \
                        k.args[1].op == 'call':
                    calls.setdefault(k.args[1].args[0], []).append(
                        (k.args[1], val))
            if not o.ok:
                if any(val for c in asked[f] for _, val in calls.get(
                        c, ())) and not w.is_lib_error(o):
                    w.fail(o, 'a failing validator ends in %s'
                           % o.exc_name)
                continue
            for c in asked[f]:
                if not calls.get(c):
                    w.fail(o, 'not all validators of %s see its value' % f)
                for call, val in calls[c]:
                    if v not in subs(call):
                        w.fail(o, 'a validator of %s sees %s' % (
                            f, show(call)))
                    if C(f) not in subs(call):
                        w.fail(o, 'a validator of %s is told about '
                               'another field' % f)
                    if val:
                        w.fail(o, 'a failing validator of %s is ignored'
                               % f)

    def anything(cls):
        st = w.e.state()
        w.top = w.cls(cls)
        try:
            outs = w.run(w.cls(cls), [], {'**': Sym('D', ['dict'])}, st=st,
                         implicit='all')
        finally:
            w.top = None
        for o in outs:
            if not o.ok and not w.is_lib_error(o):
                w.fail(o, 'building raises %s' % o.exc_name)
        return '%d paths' % len(outs)
    for cls, fields in R.CONTAINERS.items():
        for f, (kind, req, default) in fields.items():
            if req:
                x.ob('%s.%s/absent' % (cls, f), missing, cls, f, False)
                x.ob('%s.%s/null' % (cls, f), missing, cls, f, True)
            else:
                x.ob('%s.%s/null' % (cls, f), null, cls, f)
            for t in TYPES:
                if t != 'None':
                    x.ob('%s.%s/validators/%s' % (cls, f, t), consulted,
                         cls, f, t)
        for name in ('unknown', 'header', '_' + sorted(fields)[0]):
            x.ob('%s/%s' % (cls, name), unknown, cls, name, Sym('V'))
        x.ob('%s/unknown-null' % cls, unknown, cls, 'unknown', NONE)
        x.ob('%s/defaults' % cls, defaults, cls)
        x.ob('%s/anything' % cls, anything, cls)


# ------------------------------------------------------------------ C33

def data_of(w, o, ref, st):
    """{key: value} of a structured dictionary"""
    ob = w.e.o(ref, st)
    out = {}
    for item in ob.data:
        if isinstance(item, Many):
            raise Undecided('unknown entries in %s' % show(
                w.e.freeze(ref, st)))
        out[item[0]] = item[1]
    return out


def constant(w, v, key=None):
    """The abstract form of a default of the reference table"""
    if isinstance(v, list):
        return App('list')
    if isinstance(v, dict):
        return App('dict')
    if key == 'category':
        return w_member(w, 'message.concents:FileTransferToken.FileInfo.'
                        'Category', v)
    return C(v)


WAYS = ('dict', 'pairs', 'keywords')


def give(w, way, items, st):
    """Arguments of a constructor in one of the ways a dict takes them"""
    pairs = [(C(k), v) for k, v in items]
    if way == 'dict':
        return [w.e.new_dict(st, pairs)], {}
    if way == 'pairs':
        return [w.e.new_list(st, [Tup(k, v) for k, v in pairs])], {}
    return [], dict(items)


def good_record(w, cls, st, but=()):
    """Checked entries without a good default"""
    items = []
    for k, kind in R.CHECKED_KEYS.get(cls, {}).items():
        if cls.endswith(':Peer') and k not in but:
            if kind[0] == 'part':
                v = w.open_msg(w.cls(NODE), 'R.node', st)
            else:
                v, st = some(w, kind, st, 'R.' + k)
            items.append((k, v))
    return items, st


@prop('C33')
def c33(x, w):
    x.rule('Each structured dictionary is built (from a mapping, from '
           'pairs, from keywords and from another structured '
           'dictionary) with every subset of one entry: missing '
           'entries are the defaults, unknown keys and attributes are '
           'refused and leave it unchanged; entries with a validator are '
           'offered values of a partition of all values, at construction '
           'and by assignment: the documented ones are kept, the others '
           'refused with a field error and nothing is stored.')
    e = w.e

    def make(cls, way, items, st):
        if way == 'structured':
            outs = w.run('datastructures:SetItemDict', give(
                w, 'dict', items, st)[0], st=st)
            if len(outs) != 1 or not outs[0].ok:
                raise Undecided('a plain structured dictionary')
            args, kws, st = [outs[0].val], {}, outs[0].st
        else:
            args, kws = give(w, way, items, st)
        w.top = w.cls(cls)
        try:
            return w.run(w.cls(cls), args, kws, st=st, implicit='all')
        finally:
            w.top = None

    def filled(cls, way, key):
        st = e.state()
        items, st = good_record(w, cls, st, but=(key,))
        given = dict(items)
        if key is not None:
            kind = R.CHECKED_KEYS.get(cls, {}).get(key)
            if kind is None:
                given[key] = Sym('V')
            else:
                if kind[0] == 'part':
                    given[key] = w.open_msg(w.cls(NODE), 'V', st)
                else:
                    given[key], st = some(w, kind, st, 'V')
        for o in make(cls, way, list(given.items()), st):
            if not o.ok:
                w.fail(o, 'good entries are refused')
            d = data_of(w, o, o.val, o.st)
            want = {C(k): given.get(k, constant(w, v, k))
                    for k, v in R.RECORDS[cls].items()}
            if set(d) != set(want):
                w.fail(o, 'the keys are %s' % sorted(show(k) for k in d))
            for k in want:
                if d[k] != want[k] and e.freeze(d[k], o.st) != want[k]:
                    w.fail(o, 'the entry %s is %s' % (
                        show(k), show(e.freeze(d[k], o.st))))

    def unknown_key(cls, way, key):
        st = e.state()
        items, st = good_record(w, cls, st)
        for o in make(cls, way, items + [(key, Sym('V'))], st):
            if o.ok:
                w.fail(o, 'the unknown key %s is accepted' % key)

    def one_made(cls, st):
        items, st = good_record(w, cls, st)
        outs = [o for o in make(cls, 'dict', items, st)]
        if len(outs) != 1 or not outs[0].ok:
            raise Undecided('%d ways to make it' % len(outs))
        return outs[0].val, outs[0].st

    def assign(cls, key, v, st, ref):
        f = Sym('F')
        return w.call(ref, '__setitem__', [C(key), v], st=st,
                      implicit='all')

    def unchanged(o, ref, before, st0):
        after = e.freeze(ref, o.st)
        if after != before:
            w.fail(o, 'the dictionary changed to %s' % show(after))

    def assign_unknown(cls, key):
        ref, st = one_made(cls, e.state())
        before = e.freeze(ref, st)
        for o in assign(cls, key, Sym('V'), st, ref):
            if o.ok:
                w.fail(o, 'the unknown key %s is stored' % key)
            unchanged(o, ref, before, st)

    def assign_plain(cls, key):
        ref, st = one_made(cls, e.state())
        for o in assign(cls, key, Sym('V'), st, ref):
            if not o.ok:
                w.fail(o, 'assigning %s is refused' % key)
            if data_of(w, o, ref, o.st).get(C(key)) != Sym('V'):
                w.fail(o, 'assigning %s stores something else' % key)

    def attribute(cls, name):
        ref, st = one_made(cls, e.state())
        before = dict(e.o(ref, st).attrs)
        for o in w.call(ref, '__setattr__', [C(name), Sym('V')], st=st,
                        implicit='all'):
            if o.ok:
                w.fail(o, 'the attribute %s can be set' % name)
            if dict(e.o(ref, o.st).attrs) != before:
                w.fail(o, 'the attribute %s was set' % name)

    def checked(cls, key, way, mk, verdict, kept):
        if way == 'assignment':
            ref, st = one_made(cls, e.state())
            before = e.freeze(ref, st)
            v, st = mk(st)
            w.top = w.cls(cls)
            try:
                outs = assign(cls, key, v, st, ref)
            finally:
                w.top = None
        else:
            st = e.state()
            v, st = mk(st)
            items, st = good_record(w, cls, st, but=(key,))
            outs = make(cls, way, items + [(key, v)], st)
        for o in outs:
            if made_failed(o.st):
                if o.ok:
                    w.fail(o, 'bad nested data is accepted')
                continue
            if verdict == 'no':
                refused(w, o, key, v, 'a bad value of %s' % key)
                if way == 'assignment':
                    unchanged(o, ref, before, st)
                continue
            if not o.ok:
                w.fail(o, 'a good value of %s is refused' % key)
            d = data_of(w, o, ref if way == 'assignment' else o.val, o.st)
            got = d.get(C(key), NONE)
            if kept is not None:
                bad = kept(o.st, got, v)
                if bad:
                    w.fail(o, '%s %s' % (key, bad))
            elif got != v and e.freeze(got, o.st) != e.freeze(v, o.st):
                w.fail(o, '%s becomes %s' % (key, show(
                    e.freeze(got, o.st))))
    ways = WAYS + ('structured',)
    for cls, keys in R.RECORDS.items():
        checks = R.CHECKED_KEYS.get(cls, {})
        name = cls.rpartition(':')[2]
        for way in ways:
            if not cls.endswith(':Peer'):
                x.ob('%s/empty/%s' % (name, way), filled, cls, way, None)
            for k in keys:
                x.ob('%s.%s/%s' % (name, k, way), filled, cls, way, k)
            x.ob('%s/unknown/%s' % (name, way), unknown_key, cls, way,
                 'unknown')
            x.ob('%s/private/%s' % (name, way), unknown_key, cls, way,
                 '_x')
        for k in ('unknown', '', 'ITEMS'):
            x.ob('%s/assign/%r' % (name, k), assign_unknown, cls, k)
        for k in keys:
            if k not in checks:
                x.ob('%s/assign/%s' % (name, k), assign_plain, cls, k)
        for a in ('unknown', sorted(keys)[0]):
            x.ob('%s/attribute/%s' % (name, a), attribute, cls, a)
        for k, kind in checks.items():
            cases = values(w, kind)
            if kind[0] != 'ip':
                cases.append(('None', lambda st: (NONE, st), 'no', None))
            for label, mk, verdict, kept in cases:
                for way in ways + ('assignment',):
                    x.ob('%s.%s/%s/%s' % (name, k, label, way), checked,
                         cls, k, way, mk, verdict, kept)


# ------------------------------------------------------------------ C34

MUTABLE = ('list', 'dict', 'set', 'inst', 'gen')


def reachable(w, v, st):
    """{address: path} of the mutable objects reachable from v"""
    e = w.e
    out = {}
    todo = [(v, '')]
    while todo:
        x, path = todo.pop()
        if isinstance(x, Ref):
            if x.addr in out:
                continue
            o = e.o(x, st)
            if o.kind not in MUTABLE:
                continue
            if not (o.kind == 'set' and show(o.cls).find('frozen') >= 0):
                out[x.addr] = path or 'itself'
            for k, a in (o.attrs or {}).items():
                todo.append((a, path + '.' + k))
            for i in o.data:
                if isinstance(i, tuple):
                    todo.append((i[1], '%s[%s]' % (path, show(i[0]))))
                else:
                    todo.append((i, path + '[]'))
        elif isinstance(x, (Tup, NT)):
            todo.extend((i, path + '()') for i in x.items)
        elif isinstance(x, Many):
            todo.append((x.val, path + '[]'))
    return out


@prop('C34')
def c34(x, w):
    x.rule('Every kind of message (made locally and from received content '
           'without fields), container, structured dictionary and mask is '
           'built twice in sequence with default content; the sets of '
           'mutable objects reachable from the two instances must be '
           'disjoint, and neither may contain an object that existed '
           'before (class attributes, argument defaults, module data). '
           'Writing and loading every field leaves every such object as '
           'it was.')
    e = w.e

    def exists_before(addr):
        try:
            return e.obj(addr, e.state()) is not None
        except (KeyError, AnalysisError):
            return False

    def twice(make):
        n = 0
        for o1 in make(e.state()):
            if not o1.ok:
                continue
            r1 = reachable(w, o1.val, o1.st)
            for o2 in make(o1.st):
                if not o2.ok:
                    continue
                n += 1
                r2 = reachable(w, o2.val, o2.st)
                r1b = reachable(w, o1.val, o2.st)
                both = set(r1b) & set(r2)
                for a in both:
                    w.fail(o2, 'two instances share the object at %s'
                           % r2[a])
                for a, path in r2.items():
                    if exists_before(a):
                        w.fail(o2, 'an instance holds the shared object at '
                               '%s' % path)
        if not n:
            raise Undecided('it can not be built')
        return '%d pairs' % n

    def untouched(o):
        for addr, ob in o.st.heap.items():
            old = e.base.get(addr)
            if old is None or ob == old or isinstance(addr, tuple) and \
                    addr[0] == 'cache':
                continue
            if (ob.attrs, ob.data, ob.gone) != (old.attrs, old.data,
                                                old.gone):
                w.fail(o, 'the shared %s %s changes to %s' % (
                    ob.kind, addr, show(e.freeze(Ref(addr), o.st))))

    def use(num, q, f, make):
        st = e.state()
        a = typed(w, q, st, f)
        sent, st = make(st)
        a[f] = sent
        m = w.open_msg(w.cls(q), 'M', st, num=num, attrs=a, opaque=False)
        n = 0
        for o in w.call(m, 'slots', [], st=st):
            untouched(o)
            if not o.ok:
                continue
            wire = dict(slot_pairs(w, o)).get(f, NONE)
            s = o.st.fork()
            for o2 in one_field(w, num, f, decoded(w, wire, s), st=s):
                n += 1
                untouched(o2)
        return '%d paths' % n

    for num, q, cls in w.kinds():
        for f in R.FIELDS[q]:
            for label, make, what in admissible(w, q, f)[:3]:
                x.ob('%s.%s/%s/used' % (q, f, label), use, num, q, f, make)
        x.ob(q + '/made', twice, lambda st, cls=cls: w.run(
            cls, [], {}, st=st))
        x.ob(q + '/received', twice, lambda st, num=num: w.build(
            num, e.new_list(st, []), st=st))
    for cls in R.CONTAINERS:
        def container(st, cls=cls):
            kws, st = required(w, cls, st)
            for k, v in list(kws.items()):
                if isinstance(v, Ref):
                    # every instance gets its own part
                    st = st.fork()
                    kws[k] = e.new_dict(st, [])
            return w.run(w.cls(cls), [], kws, st=st)
        x.ob(cls, twice, container)
    for cls in R.RECORDS:
        def record(st, cls=cls):
            if cls.endswith(':Peer'):
                for f, kind in R.CHECKED_KEYS[cls].items():
                    if kind[0] != 'part':
                        v, st = some(w, kind, st, 'R.' + f)
                items = [(f, some(w, kind, st, 'R.' + f)[0])
                         for f, kind in R.CHECKED_KEYS[cls].items()
                         if kind[0] != 'part']
                items.append(('node', e.new_dict(st, [])))
                return w.run(w.cls(cls), [], dict(items), st=st)
            return w.run(w.cls(cls), [], {}, st=st)
        x.ob(cls, twice, record)
    x.ob(MASK, twice, lambda st: w.run(w.cls(MASK), [], {}, st=st))


# ------------------------------------------------------------------ C35

def plain_problem(w, v, path=''):
    """Is this frozen value plain data? Else what is wrong"""
    if isinstance(v, EnumM):
        return '%s holds %s' % (path, show(v))
    if isinstance(v, (Tup, NT)):
        for i in v.items:
            bad = plain_problem(w, i, path + '[]')
            if bad:
                return bad
    if isinstance(v, App):
        if v.op == 'obj':
            return '%s holds %s' % (path, show(v))
        if v.op == 'inst':
            if 'builtins.dict' not in {
                    c.name for c in w.e.mro(v.args[0])
                    if not isinstance(c, Cls)}:
                return '%s holds %s' % (path, show(v))
            for i in v.args[2:]:
                bad = plain_problem(w, i, path)
                if bad:
                    return bad
        if v.op in ('list', 'dict'):
            for i in v.args:
                bad = plain_problem(w, i, path)
                if bad:
                    return bad
    return None


@prop('C35')
def c35(x, w):
    x.rule('For every container, every field and every acceptable value of '
           'it, the container is turned into plain data and built again '
           'from what decoding gives back, on every abstract path: the '
           'plain form has exactly the declared fields and no library '
           'object, and every field of the new container is the same term, '
           'or an object of the same class made of the same data.')
    x.assume('nested containers convert symmetrically (induction)')
    e = w.e

    def same(o, f, a, sa, b, sb):
        """Field f: b (in sb) must equal a (in sa)"""
        fa, fb = e.freeze(a, sa), e.freeze(b, sb)
        if isinstance(a, Ref) and isinstance(b, Ref):
            oa, ob = e.o(a, sa), e.o(b, sb)
            if oa.kind != ob.kind or oa.cls != ob.cls:
                w.fail(o, '%s: %s comes back as %s' % (f, show(fa),
                                                       show(fb)))
            if '\0made' in ob.attrs:
                if ob.attrs['\0made'] != App('plain', fa):
                    w.fail(o, '%s is made again of %s' % (
                        f, show(ob.attrs['\0made'])))
                return
            if oa.kind == 'inst' and not e.is_dictlike(oa):
                if set(oa.attrs) != set(ob.attrs):
                    w.fail(o, '%s has other parts' % f)
                for k in oa.attrs:
                    same(o, f, oa.attrs[k], sa, ob.attrs[k], sb)
                return
            da = dict(i for i in oa.data if isinstance(i, tuple))
            db = dict(i for i in ob.data if isinstance(i, tuple))
            if len(oa.data) == len(da) and len(ob.data) == len(db) and \
                    e.is_dictlike(oa):
                if set(da) != set(db):
                    w.fail(o, '%s has other entries' % f)
                for k in da:
                    same(o, f, da[k], sa, db[k], sb)
                return
        if fa != fb and not (isinstance(fa, (EnumM, C)) is False and
                             w.proves(sb, '==', a, b)):
            w.fail(o, '%s: %s comes back as %s' % (f, show(fa), show(fb)))

    def back(cls, f, make):
        st = e.state()
        v, st = make(st)
        kws, st = required(w, cls, st, but=(f,))
        if isinstance(v, Ref) and e.o(v, st).kind == 'inst' and \
                not e.is_dictlike(e.o(v, st)):
            # nested containers have fields, so their data is never empty
            st.iv[((App('len', App('plain', e.freeze(v, st))), 1),)] = (
                1, False, None, False)
        if f is not None:
            kws[f] = v
        n = 0
        for o in make_container(w, cls, kws, st):
            if not o.ok:
                continue
            s0 = o.st
            for k, a in e.o(o.val, s0).attrs.items():
                if isinstance(a, Ref) and '\0made' in e.o(a, s0).attrs:
                    s0 = s0.fork()
                    s0.iv[((App('len', App('plain', e.freeze(a, s0))),
                            1),)] = (1, False, None, False)
            for o2 in w.call(o.val, 'to_dict', [], st=s0, implicit='all'):
                if not o2.ok:
                    w.fail(o2, 'it can not be turned into plain data')
                plain = e.freeze(o2.val, o2.st)
                if plain.op != 'dict':
                    w.fail(o2, 'the plain form is %s' % show(plain))
                keys = {i.items[0].v for i in plain.args}
                if keys != set(R.CONTAINERS[cls]):
                    w.fail(o2, 'the plain form has the fields %s' % sorted(
                        keys ^ set(R.CONTAINERS[cls])))
                for i in plain.args:
                    bad = plain_problem(w, i.items[1], i.items[0].v)
                    if bad:
                        w.fail(o2, bad)
                again = {i.items[0].v: i.items[1] for i in plain.args}
                s = o2.st.fork()
                again = {k: decoded(w, p, s) for k, p in again.items()}
                for o3 in make_container(w, cls, again, s):
                    if made_failed(o3.st):
                        continue
                    if not o3.ok:
                        w.fail(o3, 'the plain form is refused')
                    n += 1
                    for g in R.CONTAINERS[cls]:
                        (sa, a), = w.attr(o.val, g, o3.st)
                        (sb, b), = w.attr(o3.val, g, o3.st)
                        same(o3, g, a, sa, b, sb)
        if not n:
            raise Fail('it is never converted back')

    for cls, fields in R.CONTAINERS.items():
        x.ob(cls + '/defaults', back, cls, None, lambda st: (NONE, st))
        for f, (kind, req, default) in fields.items():
            for label, make, verdict, kept in values(w, kind):
                if verdict == 'ok':
                    x.ob('%s.%s/%s' % (cls, f, label), back, cls, f, make)
            if not req:
                x.ob('%s.%s/null' % (cls, f), back, cls, f,
                     lambda st: (NONE, st))


# ------------------------------------------------------------------ C29

# operations that keep two different values of one argument apart
KEEPS = {'sha1', 'sha256', 'sha512', 'sha3_256', 'sha3_512', 'keccak256',
         'md5', 'blake2b', 'cbor', 'dict', 'list', 'plain', 'cat', 'hex',
         'encode', 'repr', 'str', 'json', 'inst', 'obj', 'cborload',
         'set', 'sorted'}
LOSES = {'len', 'slc', 'truth', 'not', 'mod', 'lt', 'eq', 'size', 'floor',
         'type', 'has', 'sliceof', 'isinst', 'floordiv', 'rshift', 'min',
         'max', 'abs', 'round', 'bool'}


def kept_in(t, v):
    """Does term t depend injectively on v: 'yes', 'lost', 'unknown' (only
    below operations not known to keep it) or 'no'"""
    if t == v:
        return 'yes'
    got = set()
    if isinstance(t, (Tup, NT)):
        got = {kept_in(i, v) for i in t.items}
    elif isinstance(t, App):
        sub = {kept_in(i, v) for i in t.args if isinstance(i, (
            App, Tup, NT, Sym, EnumM))}
        for i in t.args:
            if isinstance(i, (tuple, frozenset)):
                if v in subs(i):
                    sub.add('unknown')
        if t.op in KEEPS:
            got = sub
        else:
            bad = 'lost' if t.op in LOSES else 'unknown'
            got = {bad if s in ('yes', 'unknown') else s for s in sub}
    for a in ('yes', 'unknown', 'lost'):
        if a in got:
            return a
    return 'no'


@prop('C29')
def c29(x, w):
    x.rule('The digest of a header whose fields are all symbolic is '
           'computed on every abstract path, for every field and partition '
           'of its acceptable values: every field but the signature must '
           'occur in it below operations that keep different values apart, '
           'the signature must not occur in it, and the same term must '
           'result for the header rebuilt from its plain form. Signing and '
           'verifying must use exactly this digest.')
    x.assume('SHA-1 and CBOR keep different content apart')
    e = w.e
    fields = R.CONTAINERS[HEADER]

    def header(st, f=None, v=None, but=()):
        """[(ref, values, state)] of headers, field f being v"""
        kws = {}
        for g, (kind, req, default) in fields.items():
            if g == f:
                kws[g] = v
            elif g not in but:
                kws[g], st = some(w, kind, st, 'V.' + g)
        return [(o.val, kws, o.st) for o in make_container(
            w, HEADER, kws, st) if o.ok]

    def digests(ref, st):
        """[(digest, outcome)]; failures of CBOR are no digests"""
        out = []
        for o in w.call(ref, 'get_hash', [], st=st, implicit='all'):
            if o.ok:
                out.append((e.freeze(o.val, o.st), o))
            elif not w.is_lib_error(o):
                w.fail(o, 'the digest can not be computed')
        if not out:
            raise Fail('a header has no digest')
        return out

    def source(st, v):
        """What a stored value is made of"""
        if isinstance(v, Ref):
            o = e.o(v, st)
            if o.cls == w.cls(MASK):
                return [b for s, b in w.attr(v, 'byte_repr', st)]
            return [App('plain', e.freeze(v, st)), e.freeze(v, st)]
        if isinstance(v, EnumM):
            return [v, v.value]
        return [v]

    def depends(f, make):
        st = e.state()
        v, st = make(st)
        n = 0
        for ref, kws, s in header(st, f, v):
            for g in fields:
                if f is not None and g != f:
                    continue
                (s2, stored), = w.attr(ref, g, s)
                for t, o in digests(ref, s2):
                    n += 1
                    if g == 'signature':
                        if stored != NONE and stored in subs(t):
                            w.fail(o, 'the digest depends on the signature')
                        continue
                    if isinstance(stored, (C, EnumM)) or stored == NONE:
                        continue
                    how = {kept_in(t, i) for i in source(s2, stored)}
                    if how == {'unknown'}:
                        raise Undecided('%s occurs in the digest %s' % (
                            g, show(t)))
                    if not how & {'yes', 'unknown'}:
                        w.fail(o, 'the digest does not depend on %s: %s' % (
                            g, show(t)))
        return '%d digests' % n

    def changed(f):
        """the digest follows the fields, also after it was taken once"""
        new = Sym('LATER', ['str', 'int', 'bytes'])
        if fields[f][0] in ('node', 'mask') or f in ('task_owner', 'mask'):
            return 'an object'
        n = 0
        for ref, kws, s in header(e.state()):
            for t, o in digests(ref, s):
                for s2 in w.set(ref, f, new, o.st):
                    for t2, o2 in digests(ref, s2):
                        n += 1
                        if f == 'signature':
                            continue
                        if kept_in(t2, new) == 'no':
                            w.fail(o2, 'after %s was changed the digest is '
                                   'still %s' % (f, show(t2)))
        if not n:
            raise Undecided('%s can not be changed' % f)
        return '%d digests' % n
    for f in fields:
        x.ob('changed/' + f, changed, f)

    def constants(f):
        """the different constant values of a field have different digests"""
        kind = fields[f][0]
        seen = {}
        for label, make, verdict, kept in values(w, kind, 'V.' + f) + [
                ('absent', lambda st: (NONE, st), 'ok', None)]:
            st = e.state()
            v, st = make(st)
            if verdict != 'ok' or not (isinstance(v, (C, EnumM)) or
                                       v == NONE):
                continue
            if v == NONE and fields[f][1]:
                continue
            for ref, kws, s in header(st, f, v):
                (s2, stored), = w.attr(ref, f, s)
                for t, o in digests(ref, s2):
                    other = seen.setdefault(t, stored)
                    if f != 'signature' and other != stored:
                        w.fail(o, '%s as %s and as %s have the same digest'
                               % (f, show(other), show(stored)))
        return '%d digests' % len(seen)

    def signature():
        got = set()
        for v in (Sym('S1', ['bytes']), Sym('S2', ['bytes']), NONE, C(b'')):
            for ref, kws, s in header(e.state(), 'signature', v):
                got |= {t for t, o in digests(ref, s)}
        if len(got) != 1:
            raise Fail('different signatures give different digests: %s'
                       % ' / '.join(sorted(show(t) for t in got)))

    def normal(t, back):
        """plain(object made of plain(x)) is plain(x)"""
        if isinstance(t, App):
            if t in back:
                return normal(back[t], back)
            return App(t.op, *[normal(a, back) for a in t.args])
        if isinstance(t, Tup):
            return Tup(*[normal(a, back) for a in t.items])
        return t

    def moved(f, make):
        st = e.state()
        v, st = make(st)
        n = 0
        for ref, kws, s in header(st, f, v):
            for t, o in digests(ref, s):
                s1 = o.st
                for k, a in e.o(ref, s1).attrs.items():
                    if isinstance(a, Ref) and '\0made' in e.o(a, s1).attrs:
                        # containers have fields, so never empty data
                        s1 = s1.fork()
                        s1.iv[((App('len', App('plain', e.freeze(
                            a, s1))), 1),)] = (1, False, None, False)
                for o2 in w.call(ref, 'to_dict', [], st=s1, implicit='all'):
                    if not o2.ok:
                        w.fail(o2, 'the header can not be transferred')
                    p = e.freeze(o2.val, o2.st)
                    if not (isinstance(p, App) and p.op == 'dict'):
                        raise Undecided('the plain form is %s' % show(p))
                    s2 = o2.st.fork()
                    again = {i.items[0].v: decoded(w, i.items[1], s2)
                             for i in p.args}
                    for o3 in make_container(w, HEADER, again, s2):
                        if made_failed(o3.st):
                            continue
                        if not o3.ok:
                            w.fail(o3, 'the transferred header is refused')
                        back = {}
                        for k, a in e.o(o3.val, o3.st).attrs.items():
                            if isinstance(a, Ref):
                                src = e.o(a, o3.st).attrs.get('\0made')
                                if src is not None:
                                    back[App('plain', e.freeze(
                                        a, o3.st))] = src
                        for t2, o4 in digests(o3.val, o3.st):
                            n += 1
                            if normal(t2, back) != t and \
                                    not w.proves(o4.st, '==', t2, t):
                                w.fail(o4, 'the digest after the transfer '
                                       'is %s, it was %s' % (show(t2),
                                                             show(t)))
        if not n:
            raise Fail('a header is never transferred')
        return '%d digests' % n

    for f, (kind, req, default) in fields.items():
        cases = [(a, b) for a, b, v, kept in values(w, kind, 'V.' + f)
                 if v == 'ok']
        if not req:
            cases.append(('null', lambda st: (NONE, st)))
        for label, make in cases:
            x.ob('%s/%s/digest' % (f, label), depends, f, make)
            x.ob('%s/%s/transfer' % (f, label), moved, f, make)
        x.ob('%s/constants' % f, constants, f)
    x.ob('all/digest', depends, None, lambda st: (NONE, st))
    x.ob('signature/ignored', signature)

    def sign():
        n = 0
        for ref, kws, s in header(e.state(), but=('signature',)):
            want = {t for t, o in digests(ref, s)}
            for o in w.call(ref, 'sign', [PRIV], st=s, implicit='try'):
                if not o.ok:
                    continue
                n += 1
                got = w.val(ref, 'signature', o.st)
                if not any(isinstance(t, App) and t.op == 'ecsign' and
                           t.args[0] == App('privkey', PRIV) and
                           signed_digest(t) in want
                           for t in subterms(got)):
                    w.fail(o, 'the signature is %s' % show(got))
        if not n:
            raise Fail('a header is never signed')

    def signed_digest(t):
        h = t.args[1]
        return h.args[0] if isinstance(h, App) and h.op == 'sha3_256' else h

    def verify():
        n = 0
        for ref, kws, s in header(e.state()):
            (s2, sig), = w.attr(ref, 'signature', s)
            for t, o in digests(ref, s2):
                s3 = o.st.fork()
                outs = [o2 for o2 in w.call(ref, 'verify', [KEY64], st=s3)
                        if not is_exc(w, o2, 'SerializationError')]
                check_verify(w, outs, KEY64, sig, t, 'verify')
                n += len(outs)
        return '%d paths' % n

    def unsigned():
        for ref, kws, s in header(e.state(), 'signature', NONE):
            for o in w.call(ref, 'verify', [KEY64], st=s):
                if o.ok:
                    w.fail(o, 'an unsigned header is accepted')
                if not is_exc(w, o, 'InvalidSignature'):
                    w.fail(o, 'an unsigned header raises %s' % o.exc_name)
    def owner():
        """the parts of the owner count, too"""
        st = e.state()
        a = {}
        for g, (kind, req, default) in R.CONTAINERS[NODE].items():
            a[g], st = some(w, kind, st, 'N.' + g)
        node = w.open_msg(w.cls(NODE), 'N', st, attrs=a, opaque=False)
        for ref, kws, s in header(st, 'task_owner', node):
            for t, o in digests(ref, s):
                for g, v in a.items():
                    how = kept_in(t, v)
                    if how == 'unknown':
                        raise Undecided('%s occurs in %s' % (g, show(t)))
                    if how != 'yes':
                        w.fail(o, 'the digest does not depend on %s of the '
                               'owner: %s' % (g, show(t)))
    x.ob('task_owner/parts', owner)
    x.ob('sign', sign)
    x.ob('verify', verify)
    x.ob('verify/unsigned', unsigned)


# ------------------------------------------------------------------ C51

PAIRS = [('pub_addr', 'prv_addr'), ('pub_port', 'prv_port'),
         ('p2p_pub_port', 'p2p_prv_port'),
         ('hyperdrive_pub_port', 'hyperdrive_prv_port')]


@prop('C51')
def c51(x, w):
    x.rule('Completing public information is run on symbolic nodes for '
           'every combination of known and missing values: afterwards each '
           'public value is the old one, or the private one where it was '
           'missing, and every other field is the same term. The super '
           'node test is run for every combination of missing, equal and '
           'different addresses, the comparison for nodes equal in all '
           'fields and for nodes that differ in exactly one.')
    e = w.e
    fields = R.CONTAINERS[NODE]

    def symbolic(st, f, name):
        kind = fields[f][0]
        if kind[0] == 'ip' or f == 'key' or f == 'node_name':
            v = Sym(name + '.' + f, ['str'])
            st.iv[((App('len', v), 1),)] = (1, False, 40, False)
        elif kind[0] == 'int':
            v = Sym(name + '.' + f, ['int'])
            if 'hyperdrive' not in f:
                st.iv[((v, 1),)] = (1, False, 65535, False)
        else:
            v = Sym(name + '.' + f, ['dict' if f == 'port_statuses'
                                     else 'list'])
        return v

    def node(st, attrs, name='N'):
        a = {f: attrs[f] if f in attrs else symbolic(st, f, name)
             for f in fields}
        return w.open_msg(w.cls(NODE), name, st, attrs=a, opaque=False), a

    def complete(gone):
        st = e.state()
        ref, a = node(st, {f: NONE for f in gone})
        n = 0
        for o in w.call(ref, 'update_public_info', [], st=st,
                        implicit='all'):
            if not o.ok:
                w.fail(o, 'the information can not be completed')
            n += 1
            want = dict(a)
            for pub, prv in PAIRS:
                if pub in gone:
                    want[pub] = a[prv]
            for f in fields:
                for s, got in w.attr(ref, f, o.st):
                    if got != want[f] and not w.proves(s, '==', got,
                                                       want[f]):
                        w.fail(o, '%s is %s instead of %s' % (f, show(
                            e.freeze(got, s)), show(want[f])))
        if not n:
            raise Undecided('no outcome')
    for bits in range(2 ** len(PAIRS)):
        pubs = [p for i, (p, _) in enumerate(PAIRS) if bits >> i & 1]
        prvs = [q for i, (_, q) in enumerate(PAIRS) if bits >> i & 1]
        x.ob('complete/%s' % ('+'.join(pubs) or 'nothing'), complete, pubs)
        if prvs:
            x.ob('complete/without-%s' % '+'.join(prvs), complete, prvs)
            x.ob('complete/neither-%s' % '+'.join(prvs), complete,
                 pubs + prvs)

    A, B = Sym('A', ['str']), Sym('B', ['str'])

    def supernode(pub, prv, want):
        st = e.state()
        for v in (A, B):
            st.iv[((App('len', v), 1),)] = (1, False, 40, False)
        st.facts[App('eq', A, B)] = False
        st.facts[App('eq', B, A)] = False
        ref, a = node(st, {'pub_addr': pub, 'prv_addr': prv})
        for o in w.call(ref, 'is_super_node', [], st=st, implicit='all'):
            if not o.ok:
                w.fail(o, 'the test raises')
            if w.truthy(o.st, o.val) != {want}:
                w.fail(o, 'a node with addresses %s and %s gives %s' % (
                    show(pub), show(prv), show(o.frozen())))
            for f in fields:
                for s, got in w.attr(ref, f, o.st):
                    if got != a[f]:
                        w.fail(o, 'the test changes %s' % f)
    for pub, prv, want in ((A, A, True), (A, B, False), (NONE, A, False),
                           (A, NONE, False), (NONE, NONE, False)):
        x.ob('super-node/%s-%s' % (show(pub), show(prv)), supernode, pub,
             prv, want)

    def equal(f, value, want):
        st = e.state()
        a1 = {}
        r1, a = node(st, a1)
        b = dict(a)
        if f is not None:
            b[f] = value
            st = next(s for s, same in e.eq(a[f], value, st) if not same)
        r2 = w.open_msg(w.cls(NODE), 'N2', st, attrs=b, opaque=False)
        for x1, x2 in ((r1, r2), (r2, r1)):
            outs = w.call(x1, '__eq__', [x2], st=st, implicit='all')
            if not outs:
                raise Undecided('no outcome')
            for o in outs:
                if not o.ok:
                    w.fail(o, 'the comparison raises')
                if w.truthy(o.st, o.val) != {want}:
                    w.fail(o, 'nodes that differ in %s compare as %s' % (
                        f or 'nothing', show(o.frozen())))
    x.ob('equal/same', equal, None, None, True)
    for f in fields:
        x.ob('equal/other-%s' % f, lambda f=f: equal(f, Sym(
            'OTHER', symbolic(e.state(), f, 'N').types), False))
        x.ob('equal/no-%s' % f, equal, f, NONE, False)

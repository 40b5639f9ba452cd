"""Values of the value-graph analysis: records, containers, binders (sums, collections,
folds over an index range) and their normalising constructors and substitution."""
from fractions import Fraction
from terms import *
import terms as tm

_n = [0]


def fresh(op='fv', isint=True, dom=(0, None)):
    _n[0] += 1
    return T(op, _n[0], isint=isint, dom=dom)


# ------------------------------------------------------------------ type registry
TYPES = {}          # reckey -> type json
RECORDS = {}        # reckey -> record json (all programs loaded share names)


def reckey(t):
    return t.get('full') or t['n']


def base_t(t):
    """drop reference/const"""
    return t


def tname(t):
    return t.get('n') if t.get('k') == 'rec' else None


CONT = {'std::vector', 'std::deque', 'std::list', 'std::set', 'std::map', 'std::unordered_map', 'std::multimap',
        'std::unordered_set', 'std::array', 'std::initializer_list', 'boost::geometry::model::ring',
        'boost::geometry::model::linestring', 'boost::geometry::model::multi_polygon'}
MAPS = {'std::map', 'std::unordered_map', 'std::multimap'}
SETS = {'std::set', 'std::unordered_set'}
PTRS = {'std::shared_ptr', 'std::unique_ptr', 'std::__shared_ptr_access', 'std::__shared_ptr'}
ITERS = {'__gnu_cxx::__normal_iterator', 'std::_Deque_iterator', 'std::_Rb_tree_const_iterator', 'std::_Rb_tree_iterator',
         'std::_List_iterator', 'std::_List_const_iterator', 'std::reverse_iterator',
         'std::__detail::_Node_iterator', 'std::__detail::_Node_const_iterator'}
LIBREC = {'std::pair': ['first', 'second'], 'boost::optional': ['has', 'val'], 'std::optional': ['has', 'val'],
          'boost::geometry::model::d2::point_xy': ['x', 'y'],
          'boost::geometry::model::box': ['min', 'max'],
          'boost::geometry::model::polygon': ['outer', 'inners']}
BOOLT = {'k': 'bool'}
INTT = {'k': 'int', 'w': 64}
DBLT = {'k': 'float', 'w': 64}


def elem_type(t):
    n = t.get('n')
    ta = t.get('ta') or []
    if n in MAPS:
        return {'k': 'rec', 'n': 'std::pair', 'full': 'pair<%s>' % reckey(t), 'ta': ta[:2]}
    if n == 'boost::geometry::model::multi_polygon':
        return ta[0] if ta else {'k': 'other'}
    return ta[0] if ta else {'k': 'other'}


def libfields(t):
    n = t.get('n')
    ta = t.get('ta') or []
    g = lambda i: ta[i] if len(ta) > i else {'k': 'other'}
    if n == 'std::pair':
        return {'first': g(0), 'second': g(1)}
    if n in ('boost::optional', 'std::optional'):
        return {'has': BOOLT, 'val': g(0)}
    if n == 'boost::geometry::model::d2::point_xy':
        return {'x': DBLT, 'y': DBLT}
    if n == 'boost::geometry::model::box':
        return {'min': g(0), 'max': g(0)}
    if n == 'boost::geometry::model::polygon':
        r = {'k': 'rec', 'n': 'boost::geometry::model::ring', 'full': 'ring', 'ta': ta[:1]}
        return {'outer': r, 'inners': {'k': 'rec', 'n': 'std::vector', 'full': 'vector<ring>', 'ta': [r]}}
    if n == 'std::tuple':
        return {str(i): x for i, x in enumerate(ta)}
    return None


def fields(key):
    """ordered {field: type} of a record type key, or None when unknown"""
    r = RECORDS.get(key)
    if r is not None:
        out = {}
        for b in r.get('bases', []):
            bk = b if isinstance(b, str) else (b.get('full') or b.get('n'))
            bf = fields(bk)
            if bf:
                out.update(bf)
        for f in r['fields']:
            out[f['n']] = f['t']
        return out
    t = TYPES.get(key)
    if t is not None:
        return libfields(t)
    if key == '#it':
        return {'c': {'k': 'other'}, 'i': INTT}
    return None


def fromterm(t, ty):
    """typed view of an opaque term"""
    if isinstance(t, (DD, Rec)):
        return t
    k = ty.get('k') if ty else None
    if k == 'rec':
        key = reckey(ty)
        n = ty.get('n')
        if key not in TYPES:
            TYPES[key] = ty
        if n in CONT or n in PTRS:
            return L(t)
        if n in ITERS:
            return Rec('#it', t, {})
        if KEYS[0] and str(key).rsplit('::', 1)[-1] in KEYS[0]:
            how = KEYS[0][str(key).rsplit('::', 1)[-1]]
            if how == 'same' or given(t):
                return Rec(key, None, {'value': L(T('str', '#same' if how == 'same' else '#' + t.key))})
        if key in RECORDS or (n in LIBREC):
            return Rec(key, t, {})
        return L(t)
    return L(t)


# Identifiers of inputs assumed for an instance: all equal ('same') or pairwise different ('apart')
KEYS = [None]


def given(t):
    """part of an input chosen by position"""
    while t.op in ('sel', 'nth', 'deref', 'arrow'):
        if t.op == 'nth':
            i = t.args[1]
            if (isconst(i.term) if isinstance(i, DD) and i.var is None else isconst(i) if isinstance(i, Term) else None) is None:
                return False
        t = t.args[0] if isinstance(t.args[0], Term) else t.args[0].term if isinstance(t.args[0], DD) and t.args[0].var is None else None
        if t is None:
            return False
    return t.op == 'sym'


def typed(op, ty, *args):
    """opaque scalar/aggregate term of type ty"""
    k = ty.get('k') if ty else None
    isint = k in ('int', 'bool', 'enum')
    dom = None
    if k == 'bool':
        dom = (0, 1)
    elif k == 'int' and ty.get('u'):
        dom = (0, None)
    return fromterm(T(op, *args, isint=isint, dom=dom), ty)


def sel(t, f, ty):
    """field f of opaque record term t"""
    if t is DC:
        return DDC
    if t.op == 'box' and isinstance(t.args[0], Rec):
        return getf(t.args[0], f, ty)
    if t.op == 'uninit':
        return fromterm(T('uninit', *t.args, f), ty or {})
    return typed('sel', ty, t, f)


def asrec(v, key):
    if isinstance(v, Rec):
        return v
    if isinstance(v, DD) and v.var is None:
        if v.term is DC:
            return None
        return Rec(key, v.term, {})
    return v


def vmap(d, g):
    """map leaf terms of diagram d to values and merge the results under d's conditions"""
    if d.var is None:
        return g(d.term)
    ls = {}
    for t in leaves(d):
        if t not in ls:
            ls[t] = g(t)
    vs = list(ls.values())
    if all(isinstance(v, DD) for v in vs):
        return apply(lambda t: ls[t], d)
    ty = next((v.ty for v in vs if isinstance(v, Rec)), None)
    vs2 = {t: (v if isinstance(v, Rec) else asrec(v, ty)) for t, v in ls.items()}
    return _mergerec(d, vs2, ty)


def _mergerec(d, m, ty):
    """m: leaf term -> Rec or None (don't care)"""
    real = [v for v in m.values() if v is not None]
    bad = [v for v in real if not isinstance(v, Rec)]
    if bad:
        return vmap(d, lambda t: embedd(m[t]) if m[t] is not None else DDC)
    base = real[0].base
    same = all(v.base is base for v in real)
    fs = fields(ty)
    if same and (base is not None or fs is None):
        names = []
        for v in real:
            for k in v.f:
                if k not in names:
                    names.append(k)
    elif fs is not None:
        names = list(fs)
        for v in real:
            for k in v.f:
                if k not in names:
                    names.append(k)
        base = None
    else:
        return vmap(d, lambda t: embedd(m[t]) if m[t] is not None else DDC)
    out = {}
    for n in names:
        ft = (fs or {}).get(n)
        if ft is None:
            ft = guess(next((v.f[n] for v in real if n in v.f), None))
        out[n] = vmap(d, lambda t: DDC if m[t] is None else getf(m[t], n, ft))
    return Rec(ty, base if same else None, out)


def guess(v):
    if isinstance(v, Rec):
        return TYPES.get(v.ty) or {'k': 'rec', 'n': v.ty}
    if isinstance(v, DD):
        ts = leaves(v)
        if all(t.isint for t in ts):
            return {'k': 'int', 'w': 64}
    return {'k': 'float', 'w': 64}


def ftype(key, name):
    fs = fields(key)
    return fs.get(name) if fs else None


def getf(v, name, ty=None):
    if isinstance(v, Rec):
        if name in v.f:
            return v.f[name]
        if v.base is not None:
            ft = ftype(v.ty, name) or ty
            return sel(v.base, name, ft)
        if v.ty and v.ty.startswith('#'):
            return DDC
        return L(T('?nofield', v.ty or '', name))
    return vmap(v, lambda t: sel(t, name, ty) if t is not DC else DDC)


def setf(v, name, val, key=None):
    if isinstance(v, Rec):
        f = dict(v.f)
        f[name] = val
        return Rec(v.ty, v.base, f)
    if v.var is None:
        return Rec(key, v.term if v.term is not DC else None, {name: val})
    r = vmap(v, lambda t: Rec(key, t, {}) if t is not DC else DDC)
    if isinstance(r, Rec):
        return setf(r, name, val)
    return L(T('?setf', r, name))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if isinstance(a, DD) and isinstance(b, DD):
        if a is DDC:
            return b
        if b is DDC:
            return a
        return apply(lambda x, y, z: (y if z is DC or (x is ONE and y is not DC) else (z if y is DC or x is not ONE else y)), c, a, b)
    ty = a.ty if isinstance(a, Rec) else b.ty
    if isinstance(a, Rec) and isinstance(b, Rec) and a.ty != b.ty:
        # different dynamic types: keep both as opaque values
        return ite(c, L(T('box', norm(a))), L(T('box', norm(b))))
    if isinstance(a, DD) and a.var is not None or isinstance(b, DD) and b.var is not None:
        d = a if isinstance(a, DD) else b
        o = b if isinstance(a, DD) else a
        r = vmap(d, lambda t: Rec(ty, t, {}) if t is not DC else o)
        return ite(c, r, b) if isinstance(a, DD) else ite(c, a, r)
    ra, rb = asrec(a, ty), asrec(b, ty)
    if ra is None:
        return b
    if rb is None:
        return a
    return _mergerec(apply(lambda x: ONE if x is ONE else ZERO, c), {ONE: ra, ZERO: rb}, ty)


def norm(v):
    """canonical representation of a value used as a term argument"""
    if isinstance(v, tuple):
        return tuple(norm(x) for x in v)
    if not isinstance(v, Rec):
        return v
    f = {k: norm(x) for k, x in v.f.items()}
    base = v.base
    fs = fields(v.ty)
    if base is not None:
        drop = []
        for k, x in f.items():
            ft = (fs or {}).get(k) or guess(x)
            s = norm(sel(base, k, ft))
            if x is s or (isinstance(x, Rec) and x == s):
                drop.append(k)
        for k in drop:
            del f[k]
        if not f:
            return L(base)
        if fs is not None and all(k in f for k in fs):
            base = None
    if base is None and fs and all(k in f for k in fs):
        # all fields projected from one term?
        cand = None
        for k in fs:
            x = f[k]
            if isinstance(x, DD) and x.var is None and x.term.op == 'sel' and x.term.args[1] == k:
                if cand is None or cand is x.term.args[0]:
                    cand = x.term.args[0]
                    continue
            cand = None
            break
        if cand is not None:
            return L(cand)
        f = {k: x for k, x in f.items() if k in fs}
    return Rec(v.ty, base, f)


def embedd(v):
    v = norm(v)
    if isinstance(v, Rec):
        return L(T('box', v))
    return v


def veq(a, b):
    """are the two values identical functions of the inputs"""
    if a is b:
        return True
    if isinstance(a, DD) and isinstance(b, DD):
        return a is b
    if isinstance(a, Rec) and isinstance(b, Rec) and a == b:
        return True
    a, b = norm(a), norm(b)
    if isinstance(a, DD) and isinstance(b, DD):
        return a is b
    if isinstance(a, Rec) and isinstance(b, Rec):
        return a == b
    return False


# ------------------------------------------------------------------- substitution
def rebase(t, breaks, kids):
    """the decision 't falls between breaks[i-1] and breaks[i] -> kids[i]' for an arbitrary number t"""
    c = isconst(t)
    if c is not None:
        for b, k in zip(breaks, kids):
            if (c, 0) < b:
                return k
        return kids[-1]
    lc, base, k0 = split(t)
    br = [((v - k0) / lc, side) for v, side in breaks]
    if lc < 0:
        br = [(v, 1 - side) for v, side in reversed(br)]
        kids = list(reversed(kids))
    if base.isint:
        out = []
        for v, side in br:
            fl = v.numerator // v.denominator
            if v.denominator != 1 or side == 1:
                fl += 1
            out.append((Fraction(fl), 0))
        br = out
    nb, nk = [], [kids[0]]
    for b, k in zip(br, kids[1:]):
        if nb and nb[-1] == b:
            nk[-1] = k
        else:
            nb.append(b)
            nk.append(k)
    r = mknode(base, nb, nk)
    if base.dom is not None and r.var is base:
        lo = (Fraction(base.dom[0]), 0) if base.dom[0] is not None else None
        hi = None
        if base.dom[1] is not None:
            hi = (Fraction(base.dom[1] + 1), 0) if base.isint else (Fraction(base.dom[1]), 1)
        r = restrict(r, base, lo, hi)
    return r


def subst(x, m):
    keys = frozenset()
    for k in m:
        keys = keys | bvs(k)
    return _Sub(m, keys).value(x)


class _Sub:
    def __init__(self, m, keys):
        self.m = m
        self.keys = keys
        self.memo = {}

    def value(self, x):
        if isinstance(x, tuple):
            return tuple(self.value(y) for y in x)
        if isinstance(x, (DD, Rec, Term)):
            if not (bvs(x) & self.keys):
                return L(x) if isinstance(x, Term) else x
        else:
            return x
        r = self.memo.get(id(x))
        if r is not None:
            return r[1]
        if isinstance(x, DD):
            r = self.dd(x)
        elif isinstance(x, Rec):
            r = self.rec(x)
        else:
            r = self.term(x)
        self.memo[id(x)] = (x, r)
        return r

    def dd(self, d):
        if d.var is None:
            return self.value(d.term)
        v = self.value(d.var)
        kids = [self.value(k) for k in d.kids]
        if v.var is None and all(isinstance(k, DD) for k in kids):
            return rebase(v.term, d.breaks, kids)
        r = kids[-1]
        for i in range(len(d.breaks) - 1, -1, -1):
            b, side = d.breaks[i]
            c = apply(lambda t: cmp_zero(padd(t, const(b), -1), 'lt' if side == 0 else 'le'), v)
            r = ite(c, kids[i], r)
        return r

    def rec(self, x):
        f = {k: self.value(v) for k, v in x.f.items()}
        if x.base is None:
            return Rec(x.ty, None, f)
        b = self.value(x.base)
        if isinstance(b, DD) and b.var is None:
            return Rec(x.ty, b.term, f)
        if isinstance(b, Rec):
            ff = dict(b.f)
            ff.update(f)
            return Rec(b.ty, b.base, ff)
        r = vmap(b, lambda t: Rec(x.ty, t, {}))
        for k, v in f.items():
            r = setf(r, k, v, x.ty)
        return r

    def term(self, t):
        r = self.m.get(t)
        if r is not None:
            return L(r) if isinstance(r, Term) else r
        if t.op == 'poly':
            acc = L(ZERO)
            for c, mono in t.args[0]:
                p = L(const(c))
                for a, e in mono:
                    av = self.value(a)
                    p = apply(lambda x, y: pmul(x, ppow(y, e)), p, av)
                acc = apply(padd, acc, p)
            return acc
        if t.op in BINDERS:
            outs, bodies, h, extra = t.args
            fr, mm = open_(t)
            b2 = subst(bodies, mm)
            outs2 = self.value(outs)
            b3 = self.value(b2)
            return mkbind(t.op, outs2, b3, fr, extra, t)
        args = [self.value(a) if isinstance(a, (Term, DD, Rec, tuple)) else a for a in t.args]
        return mk(t.op, t, *args)


def untuple(a):
    return a


BUILD = {}


def lift(f, *vals):
    """apply f(terms...) -> value over the diagrams in vals (non-diagrams passed through)"""
    ds = [v for v in vals if isinstance(v, DD)]
    if all(d.var is None for d in ds):
        return f(*[v.term if isinstance(v, DD) else v for v in vals])
    tup = apply(lambda *ts: T('tup#', *ts), *ds)

    def g(t):
        it = iter(t.args)
        return f(*[next(it) if isinstance(v, DD) else v for v in vals])
    return vmap(tup, g)


def mk(op, like, *args):
    """rebuild a term with new argument values"""
    if op == 'sel':
        v, name = args
        ty = {'k': 'int', 'w': 64} if like.isint else {'k': 'float', 'w': 64}
        if like.isint and like.dom == (0, 1):
            ty = BOOLT
        elif like.isint and like.dom == (0, None):
            ty = {'k': 'int', 'w': 64, 'u': 1}
        if isinstance(v, Rec):
            return getf(v, name, ty)
        return vmap(v, lambda t: seld(t, name, ty))
    b = BUILD.get(op)
    if b:
        return b(*args)
    if op in ('vec', 'ca', 'addr', 'box', 'call', 'post', 'lam') or any(isinstance(a, (Rec, tuple)) for a in args) or op.startswith('?'):
        return L(T(op, *[norm(a) if isinstance(a, (Rec, tuple)) else (a.term if isinstance(a, DD) and a.var is None and isinstance(o, Term) else a)
                         for a, o in zip(args, like.args)], isint=like.isint, dom=like.dom))
    try:
        return lift(lambda *ts: L(T(op, *ts, isint=like.isint, dom=like.dom)), *args)
    except Blowup:
        return L(T(op, *args, isint=like.isint, dom=like.dom))


def seld(t, name, ty):
    if t.op == 'box' and isinstance(t.args[0], Rec):
        return getf(t.args[0], name, ty)
    return sel(t, name, ty)


# -------------------------------------------------------------------- arithmetic
def D(x):
    return L(const(x))


def add(a, b):
    return apply(padd, *boxed(CUT, a, b))


def sub(a, b):
    return apply(lambda x, y: padd(x, y, -1), *boxed(CUT, a, b))


def mul(a, b):
    return apply(pmul, *boxed(CUT, a, b))


def neg(a):
    return sub(L(ZERO), a)


def lt(a, b):
    return cmpd(a, b, 'lt')


# --------------------------------------------------------------------- containers
def vec(*items):
    return L(T('vec', *[norm(i) for i in items]))


EMPTY = T('vec')


def _size(c):
    if c.op == 'vec':
        return D(len(c.args))
    if c.op == 'cat':
        return add(_size(c.args[0]), size(_cl(c.args[1])))
    if c.op in ('sorted', 'upd', 'swapped', 'rev'):
        return _size(c.args[0])
    if c.op == 'drop':
        return sub(_size(c.args[0]), _cl(c.args[1]))
    if c.op == 'take':
        return _cl(c.args[1])
    if c.op == 'collect':
        outs, bodies, h, extra = c.args
        if bodies[0] is TRUE:
            return outs[0]
        fr, mm = open_(c)
        b = subst(bodies, mm)
        return mkbind('sum', outs, (b[0],), fr)
    if c.op == 'fill':
        return _cl(c.args[0])
    if c.op in ('mput', 'sput') and isinstance(c.args[0], Term):
        n = _size(c.args[0])
        return ite(has(L(c.args[0]), _cl(c.args[1])), n, add(n, D(1)))
    if c is DC:
        return DDC
    if INSTANCE[0] is not None and c.op in OPAQUE:
        return D(INSTANCE[0](c))
    return L(T('size', c, isint=True, dom=(0, None)))


# Evaluation for containers of fixed sizes: the size of every container that is an input (argument,
# member, element, or result of an opaque call).  None: sizes are symbolic.
INSTANCE = [None]
OPAQUE = {'sym', 'sel', 'nth', 'mget', 'call', 'deref', 'arrow', 'proj'}


def norm_text(k):
    """text of an identifier assumed different from the others ('' for any other key)"""
    v = k.f.get('value') if isinstance(k, Rec) else None
    return v.term.args[0] if isinstance(v, DD) and v.var is None and v.term.op == 'str' and v.term.args[0].startswith('#') else ''


def bound(which, c, k):
    """first / past-the-last position of the entries with a key"""
    def f(t):
        if INSTANCE[0] is not None and t.op in OPAQUE:
            lb = L(T('lb', t, norm(k), isint=True, dom=(0, None)))
            if KEYS[0] and KEYS[0].get('first') == 'unknown' and 'poly(())' in norm_text(k):
                return lb
            return lb if which == 'lb' else add(lb, D(INSTANCE[0](t)))
        return L(T(which, t, norm(k), isint=True, dom=(0, None)))
    return vmap(c, f)


def _cl(x):
    return L(x) if isinstance(x, Term) else x


def size(v):
    if isinstance(v, Rec):
        return L(T('?size'))
    return vmap(v, _size)


def _nth(c, i, ty):
    k = isconst(i)
    if c is DC or i is DC:
        return DDC
    if i.op == 'mfind' and i.args[0] is c:
        if ty and ty.get('n') == 'std::pair' and len(ty.get('ta') or []) == 2:
            TYPES.setdefault(reckey(ty), ty)
            return Rec(reckey(ty), None, {'first': _cl(i.args[1]), 'second': mget(L(c), i.args[1], ty['ta'][1])})
        return _cl(i.args[1])
    if c.op == 'vec':
        if k is not None and 0 <= k < len(c.args) and k.denominator == 1:
            x = c.args[int(k)]
            if isinstance(x, Rec) and x.ty == '#kv' and ty and ty.get('n') == 'std::pair':
                TYPES.setdefault(reckey(ty), ty)
                return Rec(reckey(ty), None, dict(x.f))
            return _cl(x)
        if k is not None:
            return fromterm(T('oob'), ty)
    if c.op == 'cat' and isinstance(c.args[0], Term):
        tail = c.args[1]
        n0 = _size(c.args[0])
        if n0.var is None:
            d = padd(i, n0.term, -1)
            dk = isconst(d)
            if dk is not None and dk >= 0:
                return vmap(_cl(tail), lambda t: _nth(t, d, ty))
            if dk is not None and dk < 0 and k is not None:
                return _nth(c.args[0], i, ty)
    if c.op == 'drop' and isinstance(c.args[0], Term):
        return vmap(_cl(c.args[1]), lambda n: _nth(c.args[0], padd(i, n), ty))
    if c.op == 'take' and isinstance(c.args[0], Term):
        return _nth(c.args[0], i, ty)
    if c.op == 'upd':
        c0, j, v = c.args
        j = _cl(j)
        return ite(apply(lambda a: cmp_terms(i, a, 'eq'), j), _cl(v), _nth(c0, i, ty))
    if c.op == 'collect':
        outs, bodies, h, extra = c.args
        if bodies[0] is TRUE:
            fr, mm = open_(c)
            b = subst(bodies, mm)
            return subst(b[1], {fr[0]: L(i)})
    if c.op == 'fill':
        return _cl(c.args[1])
    return typed('nth', ty, c, i)


def nth(c, i, ty):
    return lift(lambda a, b: _nth(a, b, ty), c, i)


def cat(a, b):
    def f(x, y):
        if x.op == 'vec' and y.op == 'vec':
            return L(T('vec', *(x.args + y.args)))
        if y is EMPTY:
            return L(x)
        if x is EMPTY:
            return L(y)
        if x.op == 'cat' and isinstance(x.args[1], Term) and x.args[1].op == 'vec' and y.op == 'vec':
            return L(T('cat', x.args[0], T('vec', *(x.args[1].args + y.args))))
        return L(T('cat', x, y))
    return lift(f, a, b)


def drop(c, n):
    def f(x, k):
        kk = isconst(k)
        if kk is not None:
            if kk == 0:
                return L(x)
            if x.op == 'vec' and kk <= len(x.args):
                return L(T('vec', *x.args[int(kk):]))
        if x.op == 'drop':
            return drop(_cl(x.args[0]), add(_cl(x.args[1]), L(k)))
        s = _size(x)
        if s.var is None and s.term is k:
            return L(EMPTY)
        return L(T('drop', x, k))
    return lift(f, c, n)


def take(c, n):
    def f(x, k):
        kk = isconst(k)
        s = _size(x)
        if s.var is None and s.term is k:
            return L(x)
        if kk is not None and x.op == 'vec' and kk <= len(x.args):
            return L(T('vec', *x.args[:int(kk)]))
        if x.op == 'cat' and s.var is None and isinstance(x.args[1], Term) and x.args[1].op == 'vec':
            d = isconst(padd(s.term, k, -1))
            if d is not None and 0 < d <= len(x.args[1].args):
                return cat(_cl(x.args[0]), L(T('vec', *x.args[1].args[:len(x.args[1].args) - int(d)])))
        return L(T('take', x, k))
    return lift(f, c, n)


def upd(c, i, v):
    v = norm(v)

    def f(x, k):
        kk = isconst(k)
        if x.op == 'vec' and kk is not None and 0 <= kk < len(x.args):
            return L(T('vec', *(x.args[:int(kk)] + (v,) + x.args[int(kk) + 1:])))
        if x.op == 'upd' and x.args[1] is k:
            x = x.args[0]
        return L(T('upd', x, k, v))
    return lift(f, c, i)


def keyeq(a, b):
    """equality of two key/scalar/opaque values"""
    a, b = norm(a), norm(b)
    if isinstance(a, DD) and isinstance(b, DD):
        return apply(eq_terms, a, b)
    if a == b:
        return TRUE
    if isinstance(a, Rec) or isinstance(b, Rec):
        ty = a.ty if isinstance(a, Rec) else b.ty
        fs = fields(ty)
        if fs:
            r = TRUE
            for k, ft in fs.items():
                r = AND(r, keyeq(getf(a, k, ft), getf(b, k, ft)))
            return r
    return L(T('?eq', a, b, isint=True, dom=(0, 1)))


NUMOPS = {'poly', 'sqrt', 'exp', 'log', 'sin', 'cos', 'size', 'sum', 'pi', 'idiv', 'trunc', 'floor', 'pow', 'inf'}


def isnum(t):
    return t.op in NUMOPS or t.isint


def eq_terms(x, y):
    if x is y:
        return TRUE
    if x is DC or y is DC:
        return DDC
    if x.op == 'str' and y.op == 'str':
        return FALSE
    if isnum(x) or isnum(y):
        r = _find_eq(x, y)
        if r is not None:
            return r
        return cmp_zero(padd(x, y, -1), 'eq')
    a, b = sorted((x, y), key=lambda t: t.key)
    # doubles and opaque values share this: symmetric equality atom
    if x.op == 'vec' and y.op == 'vec' and len(x.args) != len(y.args):
        return FALSE
    return cmp_zero(T('eq', a, b, isint=True, dom=(0, 1)), 'ne')


def _find_eq(x, y):
    """index equality involving a search result: find(..)==end"""
    for a, b in ((x, y), (y, x)):
        if a.op == 'mfind':
            m, k = a.args
            s = _size(m)
            if s.var is None and s.term is b:
                return NOT(has(L(m), _cl(k)))
        if a.op == 'first':
            outs, bodies, h, extra = a.args
            n = outs[0]
            if n.var is None and n.term is b:
                fr, mm = open_(a)
                return NOT(mkbind('ex', outs, subst(bodies, mm), fr))
        if a.op in ('argmax',) and isinstance(a.args[0], Term):
            s = _size(a.args[0])
            if s.var is None and s.term is b:
                return cmp_zero(s.term, 'eq')
    return None


def has(m, k):
    k = norm(k)

    def f(t):
        if t is EMPTY or t.op == 'vec' and not t.args:
            return FALSE
        es = entries(t)
        if es:
            r = FALSE
            for e in es:
                r = OR(r, keyeq(_cl(e.f['first']), _cl(k)))
            return r
        if t.op == 'mput':
            return OR(keyeq(_cl(t.args[1]), _cl(k)), f(t.args[0]))
        if t.op == 'sput':
            return OR(keyeq(_cl(t.args[1]), _cl(k)), f(t.args[0]))
        if t is DC:
            return DDC
        if INSTANCE[0] is not None and t.op in OPAQUE and INSTANCE[0](t) == 0:
            return FALSE
        return L0('has', t, k)
    return vmap(m, f)


def L0(op, *args):
    """boolean atom as a diagram"""
    return cmp_zero(T(op, *args, isint=True, dom=(0, 1)), 'ne')


def mget(m, k, ty):
    k = norm(k)

    def f(t):
        es = entries(t)
        if es:
            r = _cl(es[-1].f['second'])
            for e in reversed(es[:-1]):
                r = ite(keyeq(_cl(e.f['first']), _cl(k)), _cl(e.f['second']), r)
            return r
        if t.op == 'mput':
            return ite(keyeq(_cl(t.args[1]), _cl(k)), _cl(t.args[2]), f(t.args[0]))
        if t is EMPTY:
            return DDC
        if t is DC:
            return DDC
        return typed('mget', ty, t, k)
    return vmap(m, f)


def entries(t, most=3):
    """entries of a map of few entries, sizes being fixed"""
    if INSTANCE[0] is None or t.op != 'vec' or len(t.args) > most:
        return None
    return list(t.args) if all(isinstance(x, Rec) and 'first' in x.f and 'second' in x.f for x in t.args) else None


def strless(s, t):
    if s is t:
        return FALSE
    if s.op == 'str' and t.op == 'str':
        return TRUE if s.args[0] < t.args[0] else FALSE
    return L0('strless', s, t)


def keyless(a, b):
    """order of two keys that differ"""
    if isinstance(a, Rec) and set(a.f) == {'value'} or isinstance(b, Rec) and set(b.f) == {'value'}:
        a, b = (getf(x, 'value') if isinstance(x, Rec) else vmap(x, lambda t: sel(t, 'value', None)) for x in (a, b))
    if isinstance(a, DD) and isinstance(b, DD) and all(t.isint for x in (a, b) for t in leaves(x)):
        return lt(a, b)
    if isinstance(a, DD) and isinstance(b, DD) and all(t.op == 'str' for x in (a, b) for t in leaves(x)):
        return lift(strless, a, b)
    a, b = norm(a), norm(b)
    ka, kb = str(a.key if not isinstance(a, Rec) else a), str(b.key if not isinstance(b, Rec) else b)
    return L0('keyless', a, b) if ka < kb else NOT(L0('keyless', b, a))


def mput(m, k, v):
    k, v = norm(k), norm(v)

    def f(t):
        es = entries(t, 2)
        if es is not None:
            # few entries: kept in the order of their keys, whichever that is
            new = Rec('#kv', None, {'first': k, 'second': v})
            r = L(T('vec', *(es + [new])))
            for i in range(len(es) - 1, -1, -1):
                at = es[i].f['first']
                r = ite(keyeq(_cl(k), _cl(at)), L(T('vec', *(es[:i] + [Rec('#kv', None, {'first': at, 'second': v})] + es[i + 1:]))),
                        ite(keyless(k, at), L(T('vec', *(es[:i] + [new] + es[i:]))), r))
            return r
        if t.op == 'mput' and t.args[1] == k:
            t = t.args[0]
        return L(T('mput', t, k, v))
    return vmap(m, f)


BUILD['cut'] = cut
BUILD['size'] = size
BUILD['cat'] = cat
BUILD['drop'] = drop
BUILD['take'] = take
BUILD['upd'] = upd
BUILD['has'] = has
BUILD['mput'] = mput


def _b_nth(c, i):
    return lift(lambda a, b: _nth(a, b, {'k': 'other'}), c, i)


def _keepty(f):
    return f


# nth/mget must keep int-ness of the original: handled in mk via 'like'
_oldmk = mk


def mk(op, like, *args):
    if op in ('nth', 'mget'):
        ty = {'k': 'float', 'w': 64}
        if like.isint:
            ty = {'k': 'int', 'w': 64}
            if like.dom == (0, 1):
                ty = BOOLT
            elif like.dom == (0, None):
                ty = {'k': 'int', 'w': 64, 'u': 1}
        return nth(args[0], args[1], ty) if op == 'nth' else mget(args[0], args[1], ty)
    if op == 'eq':
        return keyeq(*args)
    if op in MATH:
        return MATH[op](*args)
    return _oldmk(op, like, *args)


# ------------------------------------------------------------------------- math
def sqrt(v):
    def f(t):
        c = isconst(t)
        if c is not None and c >= 0:
            import math
            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return const(Fraction(n, d))
        if t.op == 'poly':
            # sqrt(c^2 * q) -> c*sqrt(q) for the monic form
            lc, base, k = split(t)
            if k == 0 and lc > 0:
                import math
                n, d = math.isqrt(lc.numerator), math.isqrt(lc.denominator)
                if n * n == lc.numerator and d * d == lc.denominator and lc != 1:
                    return pmul(const(Fraction(n, d)), T('sqrt', base))
        return T('sqrt', t)
    return apply(f, v)


def fabs(v):
    return apply(lambda t: ITEd(cmp_zero(t, 'lt'), L(padd(ZERO, t, -1)), L(t)), *boxed(CUTC, v))


def odd(name):
    """odd function: f(-x) = -f(x)"""
    def f(t):
        if t is ZERO:
            return ZERO
        if t.op == 'poly':
            if _negative(t):
                return padd(ZERO, T(name, padd(ZERO, t, -1)), -1)
        return T(name, t)
    return lambda v: apply(f, *boxed(CUT, v))


def _negative(t):
    return t.op == 'poly' and t.args[0] and t.args[0][0][0] < 0


def even(name):
    def f(t):
        if t is ZERO and name == 'cos':
            return ONE
        if _negative(t):
            return T(name, padd(ZERO, t, -1))
        return T(name, t)
    return lambda v: apply(f, *boxed(CUT, v))


def plain(name, isint=False, **consts):
    return lambda *vs: lift(lambda *ts: L(T(name, *ts, isint=isint)), *vs)


def exp_(v):
    return apply(lambda t: ONE if t is ZERO else T('exp', t), v)


def log_(v):
    return apply(lambda t: ZERO if t is ONE else (t.args[0] if t.op == 'exp' else T('log', t)), v)


def pow_(a, b):
    def f(x, y):
        c = isconst(y)
        if c is not None:
            if c.denominator == 1 and abs(c) <= 8:
                return L(ppow(x, int(c)))
            if c == Fraction(1, 2):
                return sqrt(L(x))
        return L(T('pow', x, y))
    return lift(f, a, b)


def intfn(name):
    def f(t):
        c = isconst(t)
        if c is not None:
            import math
            return const({'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc, 'round': round}[name](c))
        if t.isint:
            return t
        return T(name, t, isint=True)
    return lambda v: apply(f, *boxed(CUT, v))


def isnan(v):
    def f(t):
        if t.op == 'nan':
            return TRUE
        if isconst(t) is not None or t.isint:
            return FALSE
        return L0('isnan', t)
    return apply(f, *boxed(CUTC, v))


def isfinite(v):
    def f(t):
        if isconst(t) is not None or t.isint:
            return TRUE
        if t.op in ('nan', 'inf'):
            return FALSE
        return L0('isfinite', t)
    return apply(f, v)


def idiv(a, b):
    def f(x, y):
        c, d = isconst(x), isconst(y)
        if d == 1:
            return x
        if c is not None and d:
            import math
            return const(math.trunc(c / d))
        return T('idiv', x, y, isint=True)
    return apply(f, a, b)


def mod(a, b):
    def f(x, y):
        c, d = isconst(x), isconst(y)
        if c is not None and d:
            import math
            return const(c - d * math.trunc(c / d))
        return T('mod', x, y, isint=True)
    return apply(f, a, b)


def div(a, b):
    return apply(pdiv, *boxed(CUT, a, b))


def vmax(a, b):
    return ite(lt(a, b), b, a)


def vmin(a, b):
    return ite(lt(b, a), b, a)


def f32(v):
    def f(t):
        c = isconst(t)
        if c is not None or t.isint or t.op == 'f32':
            return t
        return T('f32', t)
    return apply(f, v)


def copysign(a, b):
    m = fabs(a)
    return apply(lambda m, s: ITEd(cmp_zero(s, 'lt'), L(padd(ZERO, m, -1)), L(m)), m, b)


MATH = {'sqrt': sqrt, 'fabs': fabs, 'sin': odd('sin'), 'tan': odd('tan'), 'atan': odd('atan'), 'asin': odd('asin'),
        'cos': even('cos'), 'acos': plain('acos'), 'atan2': plain('atan2'), 'exp': exp_, 'log': log_, 'pow': pow_,
        'floor': intfn('floor'), 'ceil': intfn('ceil'), 'trunc': intfn('trunc'), 'round': intfn('round'),
        'idiv': idiv, 'mod': mod, 'isnan': isnan, 'isfinite': isfinite, 'f32': f32, 'log10': plain('log10'), 'hypot': lambda a, b: sqrt(add(mul(a, a), mul(b, b)))}


# ----------------------------------------------------------------------- binders
# T(op, outs, bodies, height, extra): bodies are under binders bv(height, j)
BINDERS = {'sum', 'prod', 'collect', 'first', 'ex', 'last', 'fold', 'mu', 'mcollect', 'lambda'}
WEAK = {'cut', 'fold', 'mu', 'argmax', 'last', 'mcollect', 'first', 'sorted'}


def open_(t):
    outs, bodies, h, extra = t.args
    marks = sorted([b for b in bvs(bodies) if b.op == 'bv' and b.args[0] == h], key=lambda b: b.args[1])
    n = extra[0] if extra and isinstance(extra[0], int) else 1
    fr, mm = [], {}
    for j in range(max([n] + [b.args[1] + 1 for b in marks])):
        b = next((b for b in marks if b.args[1] == j), None)
        if j == 0 and t.op != 'mu':
            f = fresh('fv')
        elif b is not None:
            f = fresh('fp', isint=b.isint, dom=b.dom)
        else:
            f = fresh('fp', isint=False, dom=None)
        fr.append(f)
        if b is not None:
            mm[b] = f
    return fr, mm


def height(x):
    hs = [b.args[0] for b in bvs(x) if b.op == 'bv']
    return 1 + max(hs) if hs else 1


def hasmark(x, marks):
    return bool(bvs(x) & frozenset(marks))


def close(bodies, bound):
    h = height(bodies)
    m = {}
    for j, b in enumerate(bound):
        m[b] = T('bv', h, j, isint=b.isint, dom=b.dom)
    return subst(bodies, m), h


def cofactor(d, var, lo, hi):
    memo = {}

    def rec(x):
        if x.var is None:
            return x
        r = memo.get(x)
        if r is None:
            if x.var is var:
                y = restrict(x, var, lo, hi)
                r = y if y.var is not var else y
            else:
                r = N(x.var, x.breaks, tuple(rec(k) for k in x.kids))
            memo[x] = r
        return r
    return rec(d)


def mkbind(op, outs, bodies, bound, extra=(), like=None):
    outs = tuple(_cl(o) if isinstance(o, Term) else o for o in outs)
    if not isinstance(outs, tuple):
        outs = (outs,)
    # range length diagrams: distribute over conditions on the length
    if op in ('sum', 'collect', 'ex', 'first', 'prod') and isinstance(outs[0], DD) and outs[0].var is not None:
        return vmap(outs[0], lambda t: mkbind(op, (L(t),) + outs[1:], bodies, bound, extra, like))
    fused = _fuse(op, outs, bodies, bound, extra, like)
    if fused is not None:
        return fused
    if op == 'sum':
        return mksum(outs[0], bodies[0], bound[0])
    bodies = tuple(norm(b) for b in bodies)
    cn = isconst(outs[0].term) if outs and isinstance(outs[0], DD) and outs[0].var is None else None
    if op in ('ex', 'first', 'collect') and cn is not None and cn.denominator == 1 and (0 <= cn <= 4 or 4 < cn <= 16 and op != 'collect' and _over_table(bodies, cn)):
        n = int(cn)
        if op == 'ex':
            r = FALSE
            for i in range(n):
                r = OR(r, subst(bodies[0], {bound[0]: D(i)}))
            return r
        if op == 'first':
            r = D(n)
            for i in range(n - 1, -1, -1):
                r = ite(subst(bodies[0], {bound[0]: D(i)}), D(i), r)
            return r
        if op == 'collect':
            r = L(EMPTY)
            for i in range(n):
                s = subst(bodies, {bound[0]: D(i)})
                r = ite(s[0], cat(r, vec(s[1])), r)
            return r
    if op == 'ex':
        if bodies[0] is FALSE:
            return FALSE
        if not hasmark(bodies[0], bound):
            return AND(bodies[0], cmpd(outs[0], L(ZERO), 'gt'))
        if _isdisj(bodies[0]):
            pass
    if op == 'first':
        if bodies[0] is FALSE:
            return outs[0]
        if bodies[0] is TRUE:
            return D(0)
    if op == 'collect':
        if bodies[0] is FALSE:
            return L(EMPTY)
        # identity: collect(size(c), true, c[k]) = c
        if bodies[0] is TRUE and isinstance(bodies[1], DD) and bodies[1].var is None:
            t = bodies[1].term
            if t.op == 'nth' and t.args[1] is bound[0] and not hasmark(t.args[0], bound) and outs[0] is _size(t.args[0]):
                return L(t.args[0])
    bodies, h = close(bodies, bound)
    if op in ('collect',):
        # values outside the condition are irrelevant
        if isinstance(bodies[1], DD):
            bodies = (bodies[0], care(bodies[1], bodies[0]))
    isint = like.isint if like is not None else op in ('ex', 'first')
    dom = like.dom if like is not None else ((0, 1) if op == 'ex' else ((0, None) if op == 'first' else None))
    t = T(op, outs, bodies, h, extra, isint=isint, dom=dom)
    if op == 'ex':
        return cmp_zero(t, 'ne')
    return L(t)


def _over_table(bodies, n):
    """does the search run over a literal table"""
    hit = []
    for b in bodies:
        walk(b, lambda t: hit.append(t) if t.op == 'vec' and len(t.args) == n else None)
    return bool(hit)


def _isdisj(d):
    return False


def mksum(n, body, k):
    """sum of body over k in [0,n)"""
    if n.var is not None:
        return vmap(n, lambda t: mksum(L(t), body, k))
    cn = isconst(n.term)
    if cn is not None and cn.denominator == 1 and 0 <= cn <= 4:
        r = D(0)
        for i in range(int(cn)):
            r = add(r, subst(body, {k: D(i)}))
        return r
    if not isinstance(body, DD):
        return L(T('?sum', n, norm(body)))
    # conditions that do not depend on the index are moved out
    vs = [v for v in ddvars(body).values() if not hasmark(v, (k,))]
    if vs:
        v = min(vs, key=lambda t: t.key)
        bs = sorted(_cuts(body, v))
        r = None
        kids = []
        for i in range(len(bs) + 1):
            lo = bs[i - 1] if i else None
            hi = bs[i] if i < len(bs) else None
            kids.append(mksum(n, cofactor(body, v, lo, hi), k))
        return mknode(v, bs, kids)
    if body.var is None:
        d = pd(body.term)
        acc = L(ZERO)
        for m, c in d.items():
            outm = tuple((a, e) for a, e in m if not hasmark(a, (k,)))
            inm = tuple((a, e) for a, e in m if hasmark(a, (k,)))
            co = mkpoly({outm: c})
            if not inm:
                acc = add(acc, mul(L(co), n))
            else:
                bodies, h = close((L(mkpoly({inm: Fraction(1)})),), (k,))
                isint = all(a.isint and e > 0 for a, e in inm)
                acc = add(acc, mul(L(co), L(T('sum', (n,), bodies, h, (), isint=isint))))
        return acc
    # common constant coefficient of all leaves
    bodies, h = close((body,), (k,))
    isint = all(t.isint for t in leaves(bodies[0]))
    pos = isint and all(isconst(t) is not None and isconst(t) >= 0 for t in leaves(bodies[0]))
    return L(T('sum', (n,), bodies, h, (), isint=isint, dom=(0, None) if pos else None))


def _cuts(d, v):
    out, seen, st = set(), set(), [d]
    while st:
        x = st.pop()
        if x in seen or x.var is None:
            continue
        seen.add(x)
        if x.var is v:
            out.update(x.breaks)
        st.extend(x.kids)
    return out


def _fuse(op, outs, bodies, bound, extra, like):
    """range over the elements of a collect(...): iterate over its source instead"""
    if op not in ('sum', 'collect', 'ex'):
        return None
    n = outs[0]
    k = bound[0]
    cands = []

    def f(t):
        if t.op == 'nth' and t.args[1] is k and t.args[0].op == 'collect':
            if t.args[0] not in cands:
                cands.append(t.args[0])
    walk(bodies, f)
    for c in cands:
        if _size(c) is not n:
            continue
        couts, cb, h, cextra = c.args
        fr, mm = open_(c)
        cbo = subst(cb, mm)
        cond, elem = cbo
        repl = {}

        def g(t):
            if t.op == 'nth' and t.args[1] is k and t.args[0] is c:
                repl[t] = elem if isinstance(elem, DD) else norm(elem)
        walk(bodies, g)
        nb = subst(bodies, repl)
        if hasmark(nb, (k,)):
            continue
        if op == 'sum':
            return mkbind('sum', couts, (ite(cond, nb[0], L(ZERO)),), fr)
        if op == 'ex':
            return mkbind('ex', couts, (AND(cond, nb[0]),), fr)
        return mkbind('collect', couts, (AND(cond, nb[0]), nb[1]), fr, extra, like)
    return None


# --------------------------------------------------------------------- inspection
def taints(v):
    out = set()

    def f(t):
        if t.op.startswith('?'):
            out.add(t.op + ':' + ','.join(str(a) for a in t.args if isinstance(a, str)))
    walk(v, f)
    return out


def opkinds(v):
    """multiset-free signature of the weak (not fully normalised) operators in v"""
    out = {}

    def f(t):
        if t.op in WEAK:
            key = t.op
            if t.op in ('fold', 'mu'):
                key += str(len(t.args[1]))
            out[key] = out.get(key, 0) + 1
    walk(v, f)
    return out


def libops(v):
    out = set()

    def f(t):
        if t.op.startswith('lib:') or t.op in ('call', 'post'):
            out.add(t.op if t.op.startswith('lib:') else 'call:' + str(t.args[0]))
    walk(v, f)
    return out


def syms(v):
    out = set()

    def f(t):
        if t.op == 'sym':
            out.add(t.args[0])
    walk(v, f)
    return out

"""Hash-consed terms, rational-polynomial normal forms and canonical decision
diagrams.  This is the value domain of the value-graph analysis: every value the
analysed program computes is mapped to a canonical diagram, so two programs that
compute the same value get the same object.  No solver, no program execution."""
from fractions import Fraction
import hashlib
import math

_tab = {}
MARKS = ('bv', 'fv', 'fp')


class Term:
    __slots__ = ('op', 'args', 'key', 'ok', 'fk', 'isint', 'dom', 'ty', '_tops', '_str', '_bv', '__weakref__')

    def __repr__(self):
        return show(self)


def _fk(a):
    """identity key"""
    if isinstance(a, (Term, DD)):
        return a.fk
    if isinstance(a, tuple):
        return '(' + ','.join(_fk(x) for x in a) + ')'
    if isinstance(a, Rec):
        return a.keys()[0]
    return repr(a)


def _ok(a):
    """ordering key: blind to the names of loop symbols, so renaming keeps the variable order"""
    if isinstance(a, (Term, DD)):
        return a.ok
    if isinstance(a, tuple):
        return '(' + ','.join(_ok(x) for x in a) + ')'
    if isinstance(a, Rec):
        return a.keys()[1]
    return repr(a)


vkey = _fk


def _h(s, pre):
    return s if len(s) <= 60 else pre + '#' + hashlib.sha1(s.encode()).hexdigest()


UPGRADES = [0]     # how often a term turned out to be an integer after its first use


def T(op, *args, isint=False, dom=None, ty=None):
    h = (op, args)
    try:
        t = _tab.get(h)
    except TypeError:
        raise TypeError('unhashable term args %r %r' % (op, args))
    if t is not None:
        if isint and not t.isint:
            t.isint, t.dom = True, dom
            UPGRADES[0] += 1
        return t
    t = Term()
    t.op = op
    t.args = args
    t.fk = _h(op + '(' + ','.join(_fk(a) for a in args) + ')', op[:10])
    t.ok = '$' if op in MARKS else _h(op + '(' + ','.join(_ok(a) for a in args) + ')', op[:10])
    t.key = t.ok + '~' + t.fk
    t.isint = isint
    t.dom = dom
    t.ty = ty
    t._tops = None
    t._str = None
    t._bv = None
    _tab[h] = t
    return t


class Blowup(Exception):
    pass


# ----------------------------------------------------------------- polynomials
# A numeric term is either an atom (any non-'poly' term) or T('poly', monos) with
# monos = tuple of (coef, ((atom, exp), ...)), sorted.

def _monokey(m):
    return (-sum(e for _, e in m), tuple((a.key, e) for a, e in m))


def mkpoly(d):
    """d: {mono(tuple of (atom,exp)) : Fraction} -> Term"""
    items = [(m, c) for m, c in d.items() if c != 0]
    if len(items) == 1:
        m, c = items[0]
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items.sort(key=lambda mc: _monokey(mc[0]))
    isint = all(c.denominator == 1 and all(a.isint and e > 0 for a, e in m) for m, c in items)
    return T('poly', tuple((c, m) for m, c in items), isint=isint)


def pd(t):
    """Term -> dict"""
    if t.op == 'poly':
        return {m: c for c, m in t.args[0]}
    return {((t, 1),): Fraction(1)}


def const(c):
    c = Fraction(c)
    if c == 0:
        return ZERO
    return mkpoly({(): c})


def isconst(t):
    if t.op != 'poly':
        return None
    a = t.args[0]
    if len(a) == 0:
        return Fraction(0)
    if len(a) == 1 and a[0][1] == ():
        return a[0][0]
    return None


def _mulmono(m1, m2):
    d = {}
    for a, e in m1 + m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda ae: ae[0].key))


def _addd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + k * c
        if r[m] == 0:
            del r[m]
    return r


def _muld(a, b):
    if len(a) * len(b) > 4000:
        raise Blowup('poly')
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = _mulmono(m1, m2)
            r[m] = r.get(m, 0) + c1 * c2
    return {m: c for m, c in r.items() if c}


def _divides(n, q):
    """exact multivariate polynomial division n/q (dicts); None if not exact.
    Only over genuine monomials; Laurent exponents are shifted first."""
    if not n:
        return {}
    # order: lex on (atom key) with exponents
    atoms = set()
    for m in list(n) + list(q):
        for a, _ in m:
            atoms.add(a)
    atoms = sorted(atoms, key=lambda a: a.key)
    idx = {a: i for i, a in enumerate(atoms)}

    def vec(m):
        v = [0] * len(atoms)
        for a, e in m:
            v[idx[a]] = e
        return tuple(v)
    N = {vec(m): c for m, c in n.items()}
    Q = {vec(m): c for m, c in q.items()}
    lo = [min(v[i] for v in N) for i in range(len(atoms))]
    lo = [min(x, 0) for x in lo]
    N = {tuple(v[i] - lo[i] for i in range(len(atoms))): c for v, c in N.items()}
    lead = max(Q)
    lc = Q[lead]
    res = {}
    steps = 0
    while N:
        steps += 1
        if steps > 400:
            return None
        ld = max(N)
        dv = tuple(a - b for a, b in zip(ld, lead))
        if any(x < 0 for x in dv):
            return None
        c = N[ld] / lc
        res[dv] = res.get(dv, 0) + c
        for v, k in Q.items():
            w = tuple(a + b for a, b in zip(v, dv))
            N[w] = N.get(w, 0) - c * k
            if N[w] == 0:
                del N[w]
    out = {}
    for v, c in res.items():
        m = tuple((atoms[i], v[i] + lo[i]) for i in range(len(atoms)) if v[i] + lo[i])
        out[m] = c
    return out


def _norm(d):
    """canonicalise: reduce sqrt squares, put over common polynomial denominators, cancel."""
    # sqrt(x)^2 -> x
    changed = True
    guard = 0
    while changed:
        changed = False
        guard += 1
        if guard > 30:
            raise Blowup('norm')
        for m, c in list(d.items()):
            for a, e in m:
                if a.op == 'sqrt' and (e >= 2 or e <= -2):
                    rest = tuple(x for x in m if x[0] is not a)
                    k = 1 if e >= 2 else -1
                    rest = _mulmono(rest, ((a, e - 2 * k),)) if e - 2 * k else rest
                    del d[m]
                    arg = a.args[0]
                    val = pd(arg) if k == 1 else pd(recip(arg))
                    d = _addd(d, _muld({rest: c}, val))
                    changed = True
                    break
                if a.op == 'poly' and e > 0:
                    rest = tuple(x for x in m if x[0] is not a)
                    del d[m]
                    v = {rest: c}
                    for _ in range(e):
                        v = _muld(v, pd(a))
                    d = _addd(d, v)
                    changed = True
                    break
            if changed:
                break
    dens = {}
    for m in d:
        for a, e in m:
            if a.op == 'poly' and e < 0:
                dens[a] = max(dens.get(a, 0), -e)
    if not dens:
        return d
    # numerator over the common denominator
    N = {}
    for m, c in d.items():
        have = {a: -e for a, e in m if a.op == 'poly' and e < 0}
        rest = tuple(x for x in m if not (x[0].op == 'poly' and x[1] < 0))
        v = {rest: c}
        for q, e in dens.items():
            for _ in range(e - have.get(q, 0)):
                v = _muld(v, pd(q))
        N = _addd(N, v)
    if not N:
        return {}
    for q in sorted(dens, key=lambda a: a.key):
        while dens[q] > 0:
            r = _divides(N, pd(q))
            if r is None:
                break
            N = r
            dens[q] -= 1
    dm = tuple(sorted(((q, -e) for q, e in dens.items() if e), key=lambda ae: ae[0].key))
    return {_mulmono(m, dm): c for m, c in N.items()}


def padd(a, b, k=1):
    return mkpoly(_norm(_addd(pd(a), pd(b), Fraction(k))))


def pmul(a, b):
    return mkpoly(_norm(_muld(pd(a), pd(b))))


def recip(t):
    d = pd(t)
    if not d:
        return T('inv0')
    if len(d) == 1:
        (m, c), = d.items()
        return mkpoly(_norm({tuple((a, -e) for a, e in m): 1 / c}))
    # has its own denominators?  (N/D)^-1 = D/N
    dens = {}
    for m in d:
        for a, e in m:
            if e < 0:
                dens[a] = max(dens.get(a, 0), -e)
    num = d
    if dens:
        mul = tuple(sorted(dens.items(), key=lambda ae: ae[0].key))
        num = {_mulmono(m, mul): c for m, c in d.items()}
        num = _norm(num)
        t2 = mkpoly(num)
        if len(num) == 1:
            r = recip(t2)
        else:
            r = recip(t2)
        v = pd(r)
        for a, e in dens.items():
            for _ in range(e):
                v = _muld(v, pd(a))
        return mkpoly(_norm(v))
    # common monomial factor
    common = None
    for m in d:
        md = dict(m)
        if common is None:
            common = dict(md)
        else:
            common = {a: min(e, md[a]) for a, e in common.items() if a in md and min(e, md[a]) > 0}
    cm = tuple(sorted(common.items(), key=lambda ae: ae[0].key)) if common else ()
    inv = tuple((a, -e) for a, e in cm)
    q = {_mulmono(m, inv): c for m, c in d.items()} if cm else dict(d)
    lead = sorted(q, key=_monokey)[0]
    lc = q[lead]
    q = {m: c / lc for m, c in q.items()}
    Q = mkpoly(q)
    return mkpoly({_mulmono(((Q, -1),), inv): 1 / lc})


def pdiv(a, b):
    return pmul(a, recip(b))


def ppow(a, n):
    if n == 0:
        return ONE
    if n < 0:
        return recip(ppow(a, -n))
    r = a
    for _ in range(n - 1):
        r = pmul(r, a)
    return r




def num(s):
    """numeric literal text -> exact rational, recognising multiples of pi"""
    f = float(s)
    if math.isinf(f) or math.isnan(f):
        return T('nan') if math.isnan(f) else (T('inf') if f > 0 else padd(ZERO, T('inf'), -1))
    if f and abs(f) < 100 and f != int(f):
        r = f / math.pi
        fr = Fraction(r).limit_denominator(360)
        if fr and abs(float(fr) * math.pi - f) < 1e-14 * max(1, abs(f)) and fr.denominator in (1, 2, 3, 4, 6, 8, 180, 360):
            return pmul(const(fr), PI)
    return const(Fraction(repr(f)) if 'e' not in repr(f) else Fraction(repr(f)))


# ---------------------------------------------------------------------- records
class Rec:
    """A record value: base term (or None) with overridden fields."""
    __slots__ = ('ty', 'base', 'f', '_key', '_bv')

    def __init__(self, ty, base, f):
        self.ty = ty
        self.base = base
        self.f = f
        self._key = None
        self._bv = None

    def keys(self):
        if self._key is None:
            r = []
            for g, i in ((_fk, 0), (_ok, 1)):
                t = 'R(%s|%s|%s)' % (self.ty if self.base is None else '', g(self.base) if self.base is not None else '-',
                                     ','.join('%s=%s' % (k, g(self.f[k])) for k in sorted(self.f)))
                r.append('R#' + hashlib.sha1(t.encode()).hexdigest())
            self._key = tuple(r)
        return self._key

    def key(self):
        return self.keys()[0]

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return isinstance(o, Rec) and o.key() == self.key()

    def __repr__(self):
        return show(self)




# ------------------------------------------------------------ decision diagrams
_ddtab = {}


class DD:
    """Leaf: var is None, term set.  Node: var (Term, numeric base), breaks, kids.
    breaks: sorted tuple of (Fraction, 0|1): a cut just before / just after a value."""
    __slots__ = ('var', 'term', 'breaks', 'kids', 'key', 'ok', 'fk', '__weakref__', '_bv', '_n')

    def __repr__(self):
        return show(self)

    def __getattr__(self, k):
        # names are computed when first asked for
        if k == 'fk':
            r = self.fk = _h('N(' + self.var.fk + repr(self.breaks) + ','.join([k.fk for k in self.kids]) + ')', 'N')
        elif k == 'ok':
            r = self.ok = _h('N(' + self.var.ok + repr(self.breaks) + ','.join([k.ok for k in self.kids]) + ')', 'N')
        elif k == 'key':
            r = self.key = self.ok + '~' + self.fk
        else:
            raise AttributeError(k)
        return r


def L(t):
    h = ('L', t)
    d = _ddtab.get(h)
    if d is None:
        d = DD()
        d.var = None
        d.term = t
        d.breaks = ()
        d.kids = ()
        d.key = t.key
        d.ok = t.ok
        d.fk = t.fk
        d._bv = None
        d._n = 1
        _ddtab[h] = d
    return d


MAXN = 30000


_brk, _brkids = {}, set()     # shared tuples of cuts


def N(var, breaks, kids):
    # merge equal neighbours
    if len(kids) == 2:
        if kids[0] is kids[1]:
            return kids[0]
        nb, nk = breaks, kids
    else:
        nb, nk = [], [kids[0]]
        for b, k in zip(breaks, kids[1:]):
            if k is nk[-1]:
                continue
            nb.append(b)
            nk.append(k)
        if not nb:
            return nk[0]
    if id(nb) not in _brkids:
        nb = tuple(nb)
        nb = _brk.setdefault(nb, nb)
        _brkids.add(id(nb))
    nk = tuple(nk)
    h = (var, id(nb), nk)
    d = _ddtab.get(h)
    if d is None:
        d = DD()
        d.var = var
        d.term = None
        d.breaks = nb
        d.kids = nk
        d._bv = None
        n = 1
        for k in nk:
            n += k._n
        d._n = n
        if d._n > 10**30:
            raise Blowup('dd')
        _ddtab[h] = d
    return d


ZERO = T('poly', (), isint=True)
ONE = T('poly', ((Fraction(1), ()),), isint=True)
PI = T('pi')
DC = T('dontcare')
DDC = L(DC)


def nodes(d, seen=None):
    if seen is None:
        seen = set()
    st = [d]
    while st:
        x = st.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        st.extend(x.kids)
    return len(seen)


def leaves(d):
    seen, out, st = set(), [], [d]
    while st:
        x = st.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if x.var is None:
            out.append(x.term)
        else:
            st.extend(x.kids)
    return out


def ddvars(d):
    seen, out, st = set(), {}, [d]
    while st:
        x = st.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if x.var is not None:
            out[x.var.key] = x.var
            st.extend(x.kids)
    return out


def apply(f, *ds):
    """lift f over diagrams; f: leaf terms -> Term or DD"""
    memo = {}
    cnt = [0]

    def rec(ds):
        r = memo.get(ds)
        if r is not None:
            return r
        cnt[0] += 1
        if cnt[0] > MAXN:
            raise Blowup('apply')
        var = None
        for d in ds:
            if d.var is not None and (var is None or d.var.key < var.key):
                var = d.var
        if var is None:
            r = f(*[d.term for d in ds])
            if isinstance(r, Term):
                r = L(r)
            memo[ds] = r
            return r
        bs = None
        for d in ds:
            if d.var is var:
                if bs is None:
                    bs = d.breaks
                elif bs is not d.breaks and bs != d.breaks:
                    bs = None
                    break
        if bs is not None:
            # the usual case: the same intervals everywhere
            kids = [rec(tuple([d.kids[i] if d.var is var else d for d in ds])) for i in range(len(bs) + 1)]
        else:
            bs = set()
            for d in ds:
                if d.var is var:
                    bs.update(d.breaks)
            bs = sorted(bs)
            kids = []
            pos = [0] * len(ds)
            for i in range(len(bs) + 1):
                sub = []
                for q, d in enumerate(ds):
                    if d.var is var:
                        # which child covers interval i
                        if i:
                            while pos[q] < len(d.breaks) and d.breaks[pos[q]] <= bs[i - 1]:
                                pos[q] += 1
                        sub.append(d.kids[pos[q]])
                    else:
                        sub.append(d)
                kids.append(rec(tuple(sub)))
        r = mknode(var, bs, kids)
        memo[ds] = r
        return r
    return rec(tuple(ds))


def mknode(var, bs, kids):
    """Build a node even if kids have smaller root variables (needed when f returns DDs)."""
    m = None
    for k in kids:
        if k.var is not None and (m is None or k.var.key < m.key):
            m = k.var
    if m is None or m.key > var.key:
        return N(var, tuple(bs), tuple(kids))
    # reorder: ite-chain through generic apply with an indicator node
    if m is var:
        # same variable occurs below: restrict each kid to its interval
        nk = []
        for i, k in enumerate(kids):
            lo = bs[i - 1] if i > 0 else None
            hi = bs[i] if i < len(bs) else None
            nk.append(restrict(k, var, lo, hi))
        # the restricted kids may still have 'var' at the root (finer cuts inside)
        nb, out = [], []
        for i, k in enumerate(nk):
            lo = bs[i - 1] if i > 0 else None
            hi = bs[i] if i < len(bs) else None
            if k.var is var:
                first = True
                for j, kk in enumerate(k.kids):
                    klo = k.breaks[j - 1] if j > 0 else None
                    if first:
                        if lo is not None:
                            nb.append(lo)
                        first = False
                    else:
                        nb.append(klo)
                    out.append(kk)
            else:
                if lo is not None:
                    nb.append(lo)
                out.append(k)
        return mknode(var, nb, out)
    sel = N(var, tuple(bs), tuple(L(T('sel#', i)) for i in range(len(kids))))
    return apply(lambda s, *ks: ks[s.args[0]], sel, *kids)


def restrict(d, var, lo, hi):
    """restrict d to the interval between cuts lo and hi of var (var may only be at the root)"""
    if d.var is not var:
        return d
    nb, nk = [], []
    for j, k in enumerate(d.kids):
        klo = d.breaks[j - 1] if j > 0 else None
        khi = d.breaks[j] if j < len(d.breaks) else None
        if khi is not None and lo is not None and khi <= lo:
            continue
        if klo is not None and hi is not None and klo >= hi:
            continue
        if nk:
            nb.append(klo)
        nk.append(k)
    return N(var, tuple(nb), tuple(nk))


TRUE = L(ONE)
FALSE = L(ZERO)


def truth(t):
    c = isconst(t)
    if c is None:
        return None
    return c != 0


def asbool(d):
    """numeric/bool diagram -> 0/1 diagram"""
    def f(t):
        c = isconst(t)
        if c is not None:
            return ONE if c != 0 else ZERO
        return cmp_zero(t, 'ne')
    if all(t is ONE or t is ZERO for t in leaves(d)):
        return d
    return apply(f, d)


def split(t):
    """numeric term -> (coef, base, const): t = coef*base + const; base monic, no constant"""
    d = dict(pd(t))
    k = d.pop((), Fraction(0))
    if not d:
        return None
    lead = sorted(d, key=_monokey)[0]
    lc = d[lead]
    base = mkpoly({m: c / lc for m, c in d.items()})
    return lc, base, k


def cmp_zero(t, rel):
    """diagram for t REL 0"""
    c = isconst(t)
    if c is not None:
        v = {'lt': c < 0, 'le': c <= 0, 'gt': c > 0, 'ge': c >= 0, 'eq': c == 0, 'ne': c != 0}[rel]
        return TRUE if v else FALSE
    lc, base, k = split(t)
    v = -k / lc
    if lc < 0:
        rel = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}.get(rel, rel)
    before, after = (v, 0), (v, 1)
    if base.isint:
        # integer-valued base: only cuts just before an integer
        fl = v.numerator // v.denominator
        exact = v.denominator == 1
        before = (Fraction(fl if exact else fl + 1), 0)
        after = (Fraction(fl + 1), 0)
        if not exact and rel in ('eq', 'ne'):
            return FALSE if rel == 'eq' else TRUE
    if rel == 'lt':
        br, ks = [before], [TRUE, FALSE]
    elif rel == 'le':
        br, ks = [after], [TRUE, FALSE]
    elif rel == 'gt':
        br, ks = [after], [FALSE, TRUE]
    elif rel == 'ge':
        br, ks = [before], [FALSE, TRUE]
    elif rel == 'eq':
        br, ks = [before, after], [FALSE, TRUE, FALSE]
    else:
        br, ks = [before, after], [TRUE, FALSE, TRUE]
    d = N(base, tuple(br), tuple(ks))
    dom = base.dom or bounds(base)
    if dom is not None and d.var is base:
        lo = (Fraction(dom[0]), 0) if dom[0] is not None else None
        hi = None
        if dom[1] is not None:
            hi = (Fraction(dom[1] + 1), 0) if base.isint else (Fraction(dom[1]), 1)
        d = restrict(d, base, lo, hi)
    return d


def bounds(base):
    """range of a linear combination of values with known ranges"""
    if base.op != 'poly':
        return None
    lo = hi = Fraction(0)
    for m, c in pd(base).items():
        if m == ():
            a = b = Fraction(1)
        elif len(m) == 1 and m[0][1] == 1 and m[0][0].dom is not None:
            a, b = m[0][0].dom
        else:
            return None
        if c < 0:
            a, b = b, a
        lo = None if lo is None or a is None else lo + c * a
        hi = None if hi is None or b is None else hi + c * b
        if lo is None and hi is None:
            return None
    return lo, hi


CUT = 12      # leaf combinations an arithmetic operator is distributed over
CUTC = 8      # ... and a comparison


def nleaves(d):
    return 1 if d.var is None else len(leaves(d))


def cut(d):
    """an opaque number standing for the whole diagram d"""
    if d.var is None:
        return d
    ls = leaves(d)
    return L(T('cut', d, isint=all(t.isint for t in ls)))


def boxed(lim, *ds):
    """bound the case distinctions an operator is distributed over: big diagrams become atoms"""
    n = 1
    ns = []
    for d in ds:
        k = nleaves(d)
        ns.append(k)
        n *= k
    if n <= lim:
        return ds
    same = {id(d) for d in ds}
    if len(same) == 1 and ns[0] <= lim:
        return ds
    ds = list(ds)
    for i in sorted(range(len(ds)), key=lambda i: -ns[i]):
        if n <= lim:
            break
        if ns[i] > 1:
            n //= ns[i]
            ds[i] = cut(ds[i])
    return tuple(ds)


def cmpd(a, b, rel):
    a, b = boxed(CUTC, a, b)
    return apply(lambda x, y: cmp_terms(x, y, rel), a, b)


def cmp_terms(x, y, rel):
    if x is y:
        return TRUE if rel in ('eq', 'le', 'ge') else FALSE
    return cmp_zero(padd(x, y, -1), rel)


def NOT(a):
    return apply(lambda x: ZERO if truth(x) else ONE, asbool(a))


def AND(a, b):
    return apply(lambda x, y: ONE if (x is ONE and y is ONE) else ZERO, asbool(a), asbool(b))


def OR(a, b):
    return apply(lambda x, y: ONE if (x is ONE or y is ONE) else ZERO, asbool(a), asbool(b))


def ITEd(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return apply(lambda x, y, z: y if x is ONE else z, c, a, b)


def implies(a, b):
    return AND(a, NOT(b)) is FALSE


def care(d, c):
    """simplify d using only points where c holds"""
    if c is TRUE:
        return d
    if c is FALSE:
        return d
    memo = {}

    def rec(d, c):
        if c is FALSE:
            return DDC
        if d.var is None or c is TRUE:
            return d
        r = memo.get((d, c))
        if r is not None:
            return r
        var = d.var
        if c.var is not None and c.var.key < var.key:
            # branch on c's variable: if all non-dontcare results agree we drop it
            rs = [rec(d, k) for k in c.kids]
            real = [x for x in rs if x is not DDC]
            if real and all(x is real[0] for x in real):
                r = real[0]
            else:
                r = d
            memo[(d, c)] = r
            return r
        bs = sorted(set(d.breaks) | (set(c.breaks) if c.var is var else set()))
        kids = []
        for i in range(len(bs) + 1):
            lo = bs[i - 1] if i > 0 else None
            j = 0
            while j < len(d.breaks) and lo is not None and d.breaks[j] <= lo:
                j += 1
            dk = d.kids[j]
            ck = c
            if c.var is var:
                j = 0
                while j < len(c.breaks) and lo is not None and c.breaks[j] <= lo:
                    j += 1
                ck = c.kids[j]
            kids.append(rec(dk, ck))
        # fill don't cares from a neighbour
        last = None
        for i in range(len(kids)):
            if kids[i] is DDC and last is not None:
                kids[i] = last
            elif kids[i] is not DDC:
                last = kids[i]
        last = None
        for i in range(len(kids) - 1, -1, -1):
            if kids[i] is DDC and last is not None:
                kids[i] = last
            elif kids[i] is not DDC:
                last = kids[i]
        r = mknode(var, bs, kids)
        memo[(d, c)] = r
        return r
    r = rec(d, c)
    return d if r is DDC else r


# ------------------------------------------------------------------- traversal
def walk(v, f, seen=None):
    """call f on every Term reachable from v"""
    if seen is None:
        seen = set()
    st = [v]
    while st:
        x = st.pop()
        if isinstance(x, Term):
            if id(x) in seen:
                continue
            seen.add(id(x))
            f(x)
            st.extend(x.args)
        elif isinstance(x, DD):
            if id(x) in seen:
                continue
            seen.add(id(x))
            if x.var is None:
                st.append(x.term)
            else:
                st.append(x.var)
                st.extend(x.kids)
        elif isinstance(x, Rec):
            if x.base is not None:
                st.append(x.base)
            st.extend(x.f.values())
        elif isinstance(x, tuple):
            st.extend(x)


def hasbv(x, pred):
    """does x mention a bound variable accepted by pred?"""
    for t in bvs(x):
        if pred(t):
            return True
    return False


def bvs(x):
    """bound ('bv',height,j) and free loop marks ('fv' counters, 'fp' carried values) in x"""
    if isinstance(x, Term):
        if x._bv is None:
            if x.op in MARKS:
                x._bv = frozenset([x])
            else:
                s = frozenset()
                for a in x.args:
                    s = s | bvs(a)
                x._bv = s
        return x._bv
    if isinstance(x, DD):
        if x._bv is None:
            if x.var is None:
                x._bv = bvs(x.term)
            else:
                s = bvs(x.var)
                for k in x.kids:
                    s = s | bvs(k)
                x._bv = s
        return x._bv
    if isinstance(x, Rec):
        if x._bv is None:
            s = bvs(x.base) if x.base is not None else frozenset()
            for v in x.f.values():
                s = s | bvs(v)
            x._bv = s
        return x._bv
    if isinstance(x, tuple):
        s = frozenset()
        for a in x:
            s = s | bvs(a)
        return s
    return frozenset()


def show(v, depth=0):
    if depth > 14:
        return '…'
    if isinstance(v, DD):
        if v.var is None:
            return show(v.term, depth)
        b = v.breaks
        if len(b) == 1:
            op = '<' if b[0][1] == 0 else '<='
            if v.kids[0] is TRUE and v.kids[1] is FALSE:
                return '[%s %s %s]' % (show(v.var, depth + 1), op, fr(b[0][0]))
            if v.kids[0] is FALSE and v.kids[1] is TRUE:
                return '[%s %s %s]' % (show(v.var, depth + 1), {'<': '>=', '<=': '>'}[op], fr(b[0][0]))
            return '(%s %s %s ? %s : %s)' % (show(v.var, depth + 1), op, fr(b[0][0]), show(v.kids[0], depth + 1), show(v.kids[1], depth + 1))
        return '{%s: %s}' % (show(v.var, depth + 1), ', '.join(
            ('..%s%s=>' % (fr(b[i][0]), '-' if b[i][1] == 0 else '+') if i < len(b) else 'else=>') + show(k, depth + 1) for i, k in enumerate(v.kids)))
    if isinstance(v, Rec):
        return '%s{%s%s}' % ((v.ty or '').split('::')[-1], (show(v.base, depth + 1) + ' with ') if v.base is not None else '',
                             ', '.join('%s=%s' % (k, show(x, depth + 1)) for k, x in sorted(v.f.items())))
    if isinstance(v, tuple):
        return '(' + ','.join(show(x, depth + 1) for x in v) + ')'
    if not isinstance(v, Term):
        return str(v)
    if v.op == 'poly':
        c = isconst(v)
        if c is not None:
            return fr(c)
        out = []
        for c, m in v.args[0]:
            s = '*'.join((('(%s)' % show(a, depth + 1)) if a.op == 'poly' else show(a, depth + 1)) + ('' if e == 1 else '^%d' % e) for a, e in m)
            if c != 1:
                s = fr(c) + ('*' + s if s else '')
            out.append(s or '1')
        return '(' + ' + '.join(out) + ')'
    if v.op == 'sym':
        return str(v.args[0])
    if v.op == 'bv':
        return '$%s' % '.'.join(str(a) for a in v.args)
    if v.op == 'sel':
        return '%s.%s' % (show(v.args[0], depth), v.args[1])
    if v.op == 'str':
        return repr(v.args[0])
    return '%s(%s)' % (v.op, ', '.join(show(a, depth + 1) for a in v.args))


def fr(c):
    return str(c.numerator) if c.denominator == 1 else ('%g' % float(c))

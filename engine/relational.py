"""Equality of two value graphs under the conditions of each region.

Value graphs are canonical for a fixed set of decision terms, but decisions over linearly related
terms (x-y <= d and y-x >= -d, or a maximum taken with < instead of <=) can make equal functions
look different.  Here two graphs are compared region by region; the region is an element of the
polyhedra domain (linear constraints over monomials, decided by elimination), regions that are
empty are skipped, and the values are compared modulo the equalities of the region."""
import time
from fractions import Fraction

from terms import DC, DD, Rec, Term, bvs, mkpoly, padd, pd, pmul, ppow, walk

NUMERIC = {'poly'}


class Budget(Exception):
    pass


# seconds for one comparison of two values, and for all of them before that is cut to an eighth
PER_CALL, IN_ALL = 15, 150
DEADLINE = [float('inf')]     # for the functions being compared now
SPENT = [0.0]


class Region:
    """equalities (solved form) and inequalities (dict monomial -> coefficient, constant under (), strict)"""
    __slots__ = ('eqs', 'ineqs', 'cuts')

    def __init__(self, eqs=(), ineqs=(), cuts=None):
        self.eqs, self.ineqs = tuple(eqs), tuple(ineqs)
        self.cuts = cuts or {}      # named case distinctions already resolved: cut atom -> leaf term

    def reduce(self, d):
        for piv, e in self.eqs:
            c = d.get(piv)
            if c:
                d = dict(d)
                for m, k in e.items():
                    v = d.get(m, 0) - c * k
                    if v:
                        d[m] = v
                    else:
                        d.pop(m, None)
        return d

    def add(self, base, lo, hi):
        """base within the cuts lo, hi -> new region or None when empty"""
        d = pd(base)
        isint = base.isint
        lower = upper = None      # (value, strict)
        if lo is not None:
            v, s = lo
            lower = (v, False) if isint or s == 0 else (v, True)
        if hi is not None:
            v, s = hi
            upper = (v - 1, False) if isint else (v, s == 0)
        if lower and upper and lower[0] == upper[0] and not lower[1] and not upper[1]:
            return self.equal(_plus(d, -lower[0]))
        r = self
        if lower:
            r = r.ineq(_plus(_neg(d), lower[0]), lower[1])
        if r is not None and upper:
            r = r.ineq(_plus(d, -upper[0]), upper[1])
        return r

    def equal(self, d):
        d = self.reduce(d)
        ms = [m for m in d if m != ()]
        if not ms:
            return None if d.get(()) else self
        # prefer a plain atom that occurs nowhere else in the equation
        ms.sort(key=lambda m: (len(m) != 1 or m[0][1] != 1, tuple(a.key for a, _ in m)))
        piv = ms[0]
        c = d[piv]
        e = {m: k / c for m, k in d.items()}
        eqs = []
        for p, q in self.eqs:
            k = q.get(piv)
            if k:
                q = dict(q)
                for m, v in e.items():
                    w = q.get(m, 0) - k * v
                    if w:
                        q[m] = w
                    else:
                        q.pop(m, None)
            eqs.append((p, q))
        eqs.append((piv, e))
        r = Region(eqs, (), self.cuts)
        ins = []
        for q, s in self.ineqs:
            q = r.reduce(q)
            if not [m for m in q if m != ()]:
                v = q.get((), 0)
                if v > 0 or (v == 0 and s):
                    return None
                continue
            ins.append((q, s))
        r.ineqs = tuple(ins)
        return r.check()

    def ineq(self, d, strict):
        """d <= 0 (or < 0)"""
        d = self.reduce(d)
        if not [m for m in d if m != ()]:
            v = d.get((), 0)
            return None if v > 0 or (v == 0 and strict) else self
        return Region(self.eqs, self.ineqs + ((d, strict),), self.cuts).check()

    def check(self):
        return None if empty(list(self.ineqs) + domains(self.ineqs)) else self

    def without(self, pred):
        def bad(d):
            return any(pred(a) for m in d for a, _ in m)
        return Region([(p, e) for p, e in self.eqs if not bad(e)], [(q, s) for q, s in self.ineqs if not bad(q)], self.cuts)

    def resolve(self, cut, leaf):
        r = self.equal(_diff(pd(cut), pd(leaf))) if numeric(leaf) else self
        if r is None:
            return None
        c = dict(r.cuts)
        c[cut] = leaf
        return Region(r.eqs, r.ineqs, c)

    def dicts(self):
        return [e for _, e in self.eqs] + [q for q, _ in self.ineqs]

    def open_cuts(self):
        out = {}
        for d in self.dicts():
            for m in d:
                for a, _ in m:
                    cutsin(a, self.cuts, out)
        return out


def cutsin(a, done, out):
    """unresolved cut atoms in the numeric structure of an atom"""
    if a.op == 'cut':
        if a in done:
            cutsin(done[a], done, out)
        else:
            out.setdefault(a.key, a)
    elif a.op == 'poly':
        for c, m in a.args[0]:
            for b, _ in m:
                cutsin(b, done, out)


def rewrite(t, cuts):
    """t with resolved cuts replaced by their values"""
    if t.op == 'cut':
        return rewrite(cuts[t], cuts) if t in cuts else t
    if t.op != 'poly':
        return t
    acc = None
    for c, m in t.args[0]:
        p = mkpoly({(): c})
        for a, e in m:
            p = pmul(p, ppow(rewrite(a, cuts), e))
        acc = p if acc is None else padd(acc, p)
    return t if acc is None else acc


def domains(ineqs):
    out, seen = [], set()
    for q, _ in ineqs:
        for m in q:
            if m == () or m in seen:
                continue
            seen.add(m)
            if len(m) == 1 and m[0][1] == 1:
                a = m[0][0]
                dom = a.dom
                if a.op in ('sqrt', 'fabs') and not dom:
                    dom = (0, None)
                if dom:
                    if dom[0] is not None:
                        out.append(({m: Fraction(-1), (): Fraction(dom[0])}, False))
                    if dom[1] is not None:
                        out.append(({m: Fraction(1), (): -Fraction(dom[1])}, False))
            elif all(e % 2 == 0 for _, e in m):
                out.append(({m: Fraction(-1)}, False))
    return out


def _plus(d, k):
    d = dict(d)
    v = d.get((), 0) + k
    if v:
        d[()] = v
    else:
        d.pop((), None)
    return d


def _diff(p, q):
    d = dict(p)
    for m, c in q.items():
        _acc(d, m, -c)
    return d


def _neg(d):
    return {m: -c for m, c in d.items()}


def empty(cons, limit=160):
    """Fourier-Motzkin elimination; False when not shown empty within the limit"""
    cons = _dedupe(cons)
    if cons is None:
        return True
    while True:
        count = {}
        for q, _ in cons:
            for m, c in q.items():
                if m != ():
                    p = count.setdefault(m, [0, 0])
                    p[0 if c > 0 else 1] += 1
        if not count:
            return False
        m = min(count, key=lambda m: (count[m][0] * count[m][1] - count[m][0] - count[m][1], len(m)))
        pos = [x for x in cons if x[0].get(m, 0) > 0]
        neg = [x for x in cons if x[0].get(m, 0) < 0]
        rest = [x for x in cons if not x[0].get(m)]
        if len(pos) * len(neg) + len(rest) > limit:
            return False
        for p, s in pos:
            for n, t in neg:
                a, b = p[m], -n[m]
                d = {}
                for k, c in p.items():
                    d[k] = c / a
                for k, c in n.items():
                    v = d.get(k, 0) + c / b
                    if v:
                        d[k] = v
                    else:
                        d.pop(k, None)
                d.pop(m, None)
                rest.append((d, s or t))
        cons = _dedupe(rest)
        if cons is None:
            return True


def _dedupe(cons):
    """tightest constraint per direction; None when one is false"""
    best = {}
    for q, s in cons:
        ms = sorted((m for m in q if m != ()), key=lambda m: tuple((a.key, e) for a, e in m))
        k = q.get((), Fraction(0))
        if not ms:
            if k > 0 or (k == 0 and s):
                return None
            continue
        lc = abs(q[ms[0]])
        key = tuple((m, q[m] / lc) for m in ms)
        k = k / lc
        o = best.get(key)
        if o is None or (k, s) > o:
            best[key] = (k, s)
    out = []
    for key, (k, s) in best.items():
        d = dict(key)
        if k:
            d[()] = k
        out.append((d, s))
    return out


BIND = {'fold', 'mu', 'sum', 'prod', 'collect', 'ex', 'first', 'sort', 'lam'}


class Eq:
    def __init__(self, steps=4000, blind=()):
        self.steps = steps
        self.until = float('inf')
        self.blind = frozenset(blind)   # iteration terms whose difference proves nothing
        self.open = False
        self.memo = {}
        self.witness = None

    def tick(self):
        self.steps -= 1
        if self.steps < 0 or time.monotonic() > self.until:
            raise Budget()

    def eq(self, x, y, R):
        """are x and y equal everywhere in region R"""
        if x is y:
            return True
        if isinstance(x, (Term, DD)) and isinstance(y, (Term, DD)):
            if x is DC or y is DC:
                return True
            self.tick()
            dx, dy = (isinstance(v, DD) and v.var is not None for v in (x, y))
            if not dx and not dy:
                return self.terms(x.term if isinstance(x, DD) else x, y.term if isinstance(y, DD) else y, R)
            vx = x.var if dx else None
            vy = y.var if dy else None
            var = vx if vy is None or (vx is not None and vx.key <= vy.key) else vy
            bs = set()
            if vx is var:
                bs.update(x.breaks)
            if vy is var:
                bs.update(y.breaks)
            bs = sorted(bs)
            for i in range(len(bs) + 1):
                lo = bs[i - 1] if i > 0 else None
                hi = bs[i] if i < len(bs) else None
                kx = pick(x, lo) if vx is var else x
                ky = pick(y, lo) if vy is var else y
                if kx is ky:
                    continue
                r = R.add(var, lo, hi)
                if r is None:
                    continue
                if not self.eq(kx, ky, r):
                    return False
            return True
        if isinstance(x, Rec) and isinstance(y, Rec):
            if x.ty != y.ty:
                return False
            if not (x.base is y.base or (x.base is not None and y.base is not None and self.eq(x.base, y.base, R))):
                return False
            if set(x.f) != set(y.f):
                return False
            return all(self.eq(x.f[k], y.f[k], R) for k in x.f)
        if isinstance(x, tuple) and isinstance(y, tuple):
            return len(x) == len(y) and all(self.eq(a, b, R) for a, b in zip(x, y))
        if isinstance(x, (Term, DD, Rec, tuple)) or isinstance(y, (Term, DD, Rec, tuple)):
            return False
        return x == y

    def terms(self, x, y, R):
        if x is y or x is DC or y is DC:
            return True
        if x in self.blind or y in self.blind:
            self.open = True
            return True
        if x.op != 'poly' and y.op != 'poly' and x.op == y.op and self.args(x, y, R):
            return True
        if R.cuts:
            x, y = rewrite(x, R.cuts), rewrite(y, R.cuts)
            if x is y:
                return True
        if numeric(x) and numeric(y) and self.polys(pd(x), pd(y), R):
            return True
        # distinguish the cases of one more named value
        out = R.open_cuts()
        cutsin(x, R.cuts, out)
        cutsin(y, R.cuts, out)
        if out:
            c = out[min(out)]
            return self.cases(c, c.args[0], R, x, y)
        return self.differ(x, y, R)

    def differ(self, x, y, R):
        if self.blind and (self.sees(x) or self.sees(y) or self.sees(tuple(a for d in R.dicts() for m in d for a, _ in m))):
            self.open = True
            return True
        if self.witness is None:
            self.witness = (x, y, R)
        return False

    def sees(self, v):
        r = self.memo.get(id(v)) if not isinstance(v, tuple) else None
        if r is None:
            hit = []
            walk(v, lambda t: hit.append(t) if t in self.blind else None)
            r = bool(hit)
            if not isinstance(v, tuple):
                self.memo[id(v)] = r
        return r

    def cases(self, cut, d, R, x, y):
        self.tick()
        if d.var is None:
            r = R.resolve(cut, d.term)
            return r is None or self.terms(x, y, r)
        for i, k in enumerate(d.kids):
            r = R.add(d.var, d.breaks[i - 1] if i else None, d.breaks[i] if i < len(d.breaks) else None)
            if r is not None and not self.cases(cut, k, r, x, y):
                return False
        return True

    def args(self, x, y, R):
        if len(x.args) != len(y.args):
            return False
        if x.op in BIND:
            # bound variables of the two bodies are the same symbols; constraints on outer ones of that name do not apply
            R = R.without(lambda a: bool(bvs(a)))
        return all(self.eq(a, b, R) for a, b in zip(x.args, y.args))

    def polys(self, p, q, R):
        d = dict(p)
        for m, c in q.items():
            v = d.get(m, 0) - c
            if v:
                d[m] = v
            else:
                d.pop(m, None)
        d = R.reduce(d)
        if not d:
            return True
        # atoms equal in this region
        ap = {a for m in p for a, _ in m}
        aq = {a for m in q for a, _ in m}
        only_p = [a for a in ap - aq if a.args and a.op not in ('sym', 'sel', 'bv', 'fv', 'fp')]
        only_q = [a for a in aq - ap if a.args and a.op not in ('sym', 'sel', 'bv', 'fv', 'fp')]
        ren = {}
        if len(only_p) * len(only_q) <= 60:
            for a in only_q:
                for b in only_p:
                    if a.op == b.op and self.args(b, a, R):
                        ren[a] = b
                        break
        d = rename(d, ren) if ren else d
        d = R.reduce(d)
        if not d:
            return True
        # clear denominators and substitute the region's equalities into monomials
        d = self.substitute(d, R)
        return not d

    def substitute(self, d, R):
        """rewrite atoms fixed by an equality (atom = polynomial) inside products"""
        sub = {}
        for piv, e in R.eqs:
            if len(piv) == 1 and piv[0][1] == 1:
                sub[piv[0][0]] = {m: -c for m, c in e.items() if m != piv}
        if not sub:
            return d
        neg = {}
        for m in d:
            for a, e in m:
                if e < 0 and a in sub:
                    neg[a] = max(neg.get(a, 0), -e)
        if neg:
            d = {tuple(sorted(_mono(m, neg).items(), key=lambda ae: ae[0].key)): c for m, c in d.items()}
        for _ in range(8):
            out, ch = {}, False
            for m, c in d.items():
                hit = next(((a, e) for a, e in m if a in sub and e > 0), None)
                if hit is None:
                    _acc(out, m, c)
                    continue
                ch = True
                rest = dict(m)
                if hit[1] == 1:
                    del rest[hit[0]]
                else:
                    rest[hit[0]] = hit[1] - 1
                for m2, c2 in sub[hit[0]].items():
                    r = dict(rest)
                    for a, e in m2:
                        r[a] = r.get(a, 0) + e
                        if not r[a]:
                            del r[a]
                    _acc(out, tuple(sorted(r.items(), key=lambda ae: ae[0].key)), c * c2)
            d = out
            if not ch or not d or len(d) > 400:
                break
        return d


def _mono(m, neg):
    r = dict(m)
    for a, e in neg.items():
        r[a] = r.get(a, 0) + e
        if not r[a]:
            del r[a]
    return r


def _acc(d, m, c):
    v = d.get(m, 0) + c
    if v:
        d[m] = v
    else:
        d.pop(m, None)


def rename(d, ren):
    out = {}
    for m, c in d.items():
        r = {}
        for a, e in m:
            a = ren.get(a, a)
            r[a] = r.get(a, 0) + e
        _acc(out, tuple(sorted(((a, e) for a, e in r.items() if e), key=lambda ae: ae[0].key)), c)
    return out


def numeric(t):
    return t.op == 'poly' or not (t.op in ('str', 'box', 'vec', 'cat', 'collect'))


def pick(d, lo):
    j = 0
    while j < len(d.breaks) and lo is not None and d.breaks[j] <= lo:
        j += 1
    return d.kids[j]


def equal(x, y, steps=4000, blind=()):
    """True: equal; False: they differ in some region; None: not decided within the budget, or
    they differ only in iteration terms that are compared by form (blind)"""
    E = Eq(steps, blind)
    t = time.monotonic()
    E.until = min(t + (PER_CALL if SPENT[0] < IN_ALL else PER_CALL / 8), max(t + .3, DEADLINE[0]))
    try:
        r = E.eq(x, y, Region())
    except (Budget, RecursionError):
        return None
    finally:
        SPENT[0] += time.monotonic() - t
    return None if r and E.open else r


def iterations(v, ops):
    out = set()
    walk(v, lambda t: out.add(t) if t.op in ops else None)
    return out

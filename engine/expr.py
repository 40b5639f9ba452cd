"""Expressions, calls and library models of the value-graph evaluator."""
import json

from ev import *
from ev import Ev, Ref, Loc, Choice, St, Frame
import values as V

SCALAR = ('int', 'float', 'bool', 'enum')


def asit(v):
    """iterator view of an opaque iterator value"""
    if isinstance(v, DD):
        return V.vmap(v, lambda t: Rec('#it', t, {}) if t is not DC else DDC)
    return v


READERS = set('count count_if find find_if find_if_not find_end find_first_of adjacent_find search search_n mismatch equal all_of any_of none_of '
              'min_element max_element minmax_element accumulate reduce inner_product transform_reduce lower_bound upper_bound equal_range '
              'binary_search includes is_sorted is_sorted_until is_partitioned is_heap lexicographical_compare distance prev next advance'.split())


class Eval(Ev):
    def __init__(self, programs, opaque=None):
        super().__init__(programs, opaque)
        self.addrs = {}
        self.idstack = []
        self.ngl = 0

    # ------------------------------------------------------------- entry points
    def ev(self, e, S, F):
        r = self.go(e, S, F)
        if isinstance(r, (Loc, Choice)):
            return self.load(r, S)
        return r

    def lv(self, e, S, F):
        r = self.go(e, S, F)
        return r if isinstance(r, (Loc, Choice)) else None

    def arg(self, e, S, F, pt=None):
        r = self.go(e, S, F)
        if isinstance(r, (Loc, Choice)):
            r = self.resolve(r, S)
            if pt is not None and not pt.get('ref'):
                return ('v', self.load(r, S))
            return ('l', r)
        return ('v', r if r is not None else DDC)

    def loc_of(self, e, S, F):
        """location of expression e (a fresh temporary when it is a value)"""
        r = self.go(e, S, F)
        if isinstance(r, (Loc, Choice)):
            return self.resolve(r, S)
        t = e.get('t')
        return self.tmp(r if r is not None else DDC, S, self.noref(t) if t else None)

    def go(self, e, S, F):
        if e is None:
            return None
        m = getattr(self, 'e_' + e['k'], None)
        if m is None:
            return self.unk('expr:' + e['k'] + ':' + str(e.get('cls', '')), ty=e.get('t'))
        return m(e, S, F)

    # ------------------------------------------------------------------ literals
    def e_int(self, e, S, F):
        return D(int(e['v']))

    def e_bool(self, e, S, F):
        return TRUE if e['v'] else FALSE

    def e_float(self, e, S, F):
        return L(num(e['v']))

    def e_str(self, e, S, F):
        return L(T('str', e['v']))

    def e_nullptr(self, e, S, F):
        return L(T('null'))

    def e_enumc(self, e, S, F):
        return D(int(e['v']))

    def e_sizeof(self, e, S, F):
        return D(int(e['cv'])) if 'cv' in e else self.unk('sizeof')

    def e_this(self, e, S, F):
        f = F
        while f and f.this is None:
            f = f.parent
        if f is None:
            return self.unk('this')
        return self.addr(self.resolve(f.this, S))

    def addr(self, loc):
        if isinstance(loc, Choice):
            return ite(loc.c, self.addr(loc.a), self.addr(loc.b))
        t = loc.term()
        self.addrs[t] = loc
        return L(t)

    def unaddr(self, v):
        """pointer value -> location or None"""
        if not isinstance(v, DD):
            return None
        ls = [t for t in leaves(v) if t is not DC]
        if not ls or any(t not in self.addrs for t in ls):
            return None
        loc = self.addrs[ls[-1]]
        for t in ls[:-1]:
            c = apply(lambda x: ONE if x is t else ZERO, v)
            loc = Choice(c, self.addrs[t], loc)
        return loc

    def e_definit(self, e, S, F):
        return self.go(e['e'], S, F) if e.get('e') else None

    def e_zero(self, e, S, F):
        return self.default(self.noref(e['t']))

    def e_initlist(self, e, S, F):
        t = self.noref(e['t'])
        a = e.get('a', [])
        if t.get('k') in SCALAR or t.get('k') == 'ptr':
            return self.ev(a[0], S, F) if a else self.default(t)
        if t.get('k') == 'array':
            vals = [self.ev(x, S, F) for x in a]
            n = t.get('size')
            while n and len(vals) < min(int(n), 64):
                vals.append(self.default(t.get('to')))
            return vec(*vals)
        if t.get('k') == 'rec':
            key = reckey(t)
            TYPES.setdefault(key, t)
            if t.get('n') == 'std::array':
                if len(a) == 1 and a[0]['k'] == 'initlist':
                    a = a[0].get('a', [])
                return vec(*[self.ev(x, S, F) for x in a])
            if t.get('n') in CONT:
                return vec(*[self.ev(x, S, F) for x in a])
            fs = fields(key)
            if fs is not None:
                out = {}
                names = list(fs)
                r = RECORDS.get(key)
                for n, x in zip(names, a):
                    v = self.ev(x, S, F)
                    out[n] = v if v is not None else self.default(fs[n])
                for n in names[len(a):]:
                    fd = next((f for f in (r or {}).get('fields', []) if f['n'] == n), None)
                    out[n] = self.ev_closed(fd['init'], fs[n]) if fd and fd.get('init') else self.default(fs[n])
                return Rec(key, None, out)
        return self.unk('initlist', ty=t)

    def e_stdil(self, e, S, F):
        return self.go(e['e'], S, F)

    # ------------------------------------------------------------------ variables
    def root(self, F, vid, S):
        f = F
        while f is not None:
            r = ('v', f.id, vid)
            if r in S.env:
                return r
            f = f.parent
        return None

    def e_var(self, e, S, F):
        r = self.root(F, e['id'], S)
        if r is not None:
            v = S.env[r]
            if isinstance(v, Ref):
                return v.loc
            return Loc(r)
        return self.globalval(e, S, F)

    def globalval(self, e, S, F):
        tus = []
        f = F
        while f is not None:
            if f.tu:
                tus.append(f.tu)
            f = f.parent
        for p in self.progs:
            for tu in tus:
                g = p.globals.get((tu, e['id']))
                if g is not None and (g.get('qn', g.get('n')) in (e.get('qn'), e['n'], None) or True):
                    return self.gval(p, tu, g, e)
        if e.get('qn'):
            for p in self.progs:
                for (tu, i), g in p.globals.items():
                    if g.get('qn') == e['qn'] and g.get('init'):
                        return self.gval(p, tu, g, e)
        if 'basic_ostream' in str(e['t'].get('n')):
            return L(T('ostream'))
        return self.unk('var:' + e['n'], ty=self.noref(e['t']))

    def gval(self, p, tu, g, e):
        key = (id(p), tu, g['id'])
        if key in self.gcache:
            return self.gcache[key]
        const = e['t'].get('const') or g.get('constexpr') or g.get('const')
        t = self.noref(e['t'])
        if const and g.get('init') is not None:
            S = St({}, TRUE, TRUE)
            G = Frame(None, None)
            G.tu = tu
            save = self.logs
            self.logs = []
            v = self.ev(g['init'], S, G)
            self.logs = save
        elif const:
            v = self.default(t)
        else:
            v = fromterm(T('?global', g.get('qn') or g.get('n') or e['n']), t)
        self.gcache[key] = v
        return v

    def e_mem(self, e, S, F):
        b = e['b']
        if e.get('arrow'):
            base = self.target(b, S, F)
        else:
            base = self.go(b, S, F)
        if e.get('t', {}).get('k') == 'fn':
            return base
        if isinstance(base, (Loc, Choice)):
            return base / self.fstep(e.get('rec'), e['f'], self.noref(e['t']))
        if base is None:
            return self.unk('membase', ty=e['t'])
        return getf(base, e['f'], self.noref(e['t']))

    def target(self, b, S, F):
        """object designated by pointer expression b: location or value"""
        if b['k'] == 'this':
            f = F
            while f and f.this is None:
                f = f.parent
            return f.this if f else self.unk('this')
        if b['k'] == 'opcall' and b.get('op') == '->' and not b['f'].get('inroot'):
            return self.deref(b['a'][0], S, F, b)
        r = self.go(b, S, F)
        pt = self.noref(b['t'])
        ety = pt.get('to') or ((pt.get('ta') or [None])[0])
        return self.ptarget(r, ety, S, b, F)

    def ptarget(self, r, ety, S, e, F):
        v = self.load(r, S) if isinstance(r, (Loc, Choice)) else r
        if isinstance(v, Rec) and v.ty == '#it':
            return self.itref(v, None, S, e, F)
        l = self.unaddr(v)
        if l is not None:
            return l
        if isinstance(v, DD):
            self.event('null', NOT(apply(lambda t: ONE if t.op == 'null' else ZERO, v)), S, e, F)
        if isinstance(r, (Loc, Choice)):
            r = self.resolve(r, S)
            return r / ('d', 'd', tyid(ety))
        if isinstance(v, Rec):
            return v
        return self.tmp(v, S) / ('d', 'd', tyid(ety))

    def deref(self, oe, S, F, e):
        """* or -> applied to an iterator, smart pointer or optional"""
        r = self.go(oe, S, F)
        t = self.noref(oe['t'])
        n = t.get('n')
        v = self.load(r, S) if isinstance(r, (Loc, Choice)) else r
        if isinstance(v, DD) and n in V.ITERS:
            v = asit(v)
        if isinstance(v, Rec) and v.ty == '#it':
            return self.itref(v, t, S, e, F)
        if n in ('boost::optional', 'std::optional'):
            return self.optget(r, v, t, S, e, F)
        if n in PTRS or t.get('k') == 'ptr':
            ety = t.get('to') or (t.get('ta') or [None])[0]
            return self.ptarget(r, ety, S, e, F)
        return self.unk('deref:' + str(n), v, ty=e['t'])

    def optget(self, r, v, t, S, e, F):
        key = reckey(t)
        TYPES.setdefault(key, t)
        self.event('optget', self.tobool(v), S, e, F)
        ta = t.get('ta') or [{'k': 'other'}]
        if isinstance(r, (Loc, Choice)):
            return self.resolve(r, S) / ('f', 'val', tyid(ta[0]), key)
        return getf(v, 'val', ta[0])

    def itref(self, v, t, S, e, F):
        c, i = getf(v, 'c'), getf(v, 'i', INTT)
        cl = self.unaddr(c)
        if cl is None:
            return fromterm(T('itderef', norm(v)), self.noref(e['t']) if e['t'].get('k') != 'ptr' else self.noref(e['t'].get('to')))
        ct = self.loctype(self.resolve(cl, S)) if isinstance(cl, Loc) else None
        ety = elem_type(ct) if ct and ct.get('k') == 'rec' else (self.noref(e['t']) if e['t'].get('k') != 'ptr' else self.noref(e['t'].get('to') or {}))
        cv = self.load(cl, S)
        n = size(cv) if isinstance(cv, DD) else None
        if n is not None:
            self.event('iter', self.validit(cv, i, n), S, e, F)
        if isinstance(i, DD) and i.var is None and i.term.op == 'mfind' and ety.get('n') == 'std::pair':
            return cl / ('me', _cl(i.term.args[1]), tyid(ety))
        return cl / ('i', i, tyid(ety))

    def validit(self, cv, i, n):
        """the iterator position designates an element"""
        def f(t, m):
            if t.op == 'mfind':
                return has(_cl(t.args[0]), _cl(t.args[1]))
            e = V._find_eq(t, m)
            if e is not None:
                return NOT(e)
            return AND(cmp_terms(t, m, 'lt'), cmp_zero(t, 'ge') if not (t.dom and t.dom[0] is not None and t.dom[0] >= 0) else TRUE)
        return V.lift(f, i, n)

    # ------------------------------------------------------------------ operators
    def e_un(self, e, S, F):
        op = e['op']
        if op == '*':
            t = self.noref(e['e']['t'])
            if e['e']['k'] == 'this':
                return self.target(e['e'], S, F)
            return self.target(e['e'], S, F)
        if op == '&':
            r = self.go(e['e'], S, F)
            if isinstance(r, (Loc, Choice)):
                return self.addr(self.resolve(r, S))
            if e['e']['k'] == 'fnref':
                return r
            if isinstance(r, (DD, Rec)) and r is not DDC and not isinstance(r, tuple):
                # element designated by an opaque iterator: a pointer to that value
                return L(T('box', norm(r)))
            return self.unk('addrof')
        if op in ('++', '--'):
            r = self.go(e['e'], S, F)
            if not isinstance(r, (Loc, Choice)):
                return self.unk('incr')
            r = self.resolve(r, S)
            old = self.load(r, S)
            nv = self.step_(old, 1 if op == '++' else -1)
            self.store(r, nv, S)
            return old if e.get('post') else r
        v = self.ev(e['e'], S, F)
        if op == '-':
            return neg(v) if isinstance(v, DD) else self.unk('neg')
        if op == '+':
            return v
        if op == '!':
            return NOT(self.tobool(v))
        return self.unk('un' + op, v, ty=e['t'])

    def step_(self, v, d):
        if isinstance(v, Rec) and v.ty == '#it':
            return setf(v, 'i', add(getf(v, 'i', INTT), D(d)))
        if isinstance(v, DD):
            return add(v, D(d))
        return self.unk('step', v)

    def e_assign(self, e, S, F):
        lt_ = e['lhs'].get('t', {})
        v = self.ev(e['rhs'], S, F)
        r = self.go(e['lhs'], S, F)
        if not isinstance(r, (Loc, Choice)):
            return v
        r = self.resolve(r, S)
        self.store(r, v if v is not None else DDC, S)
        return r

    def e_cassign(self, e, S, F):
        v = self.ev(e['rhs'], S, F)
        r = self.go(e['lhs'], S, F)
        if not isinstance(r, (Loc, Choice)):
            return v
        r = self.resolve(r, S)
        old = self.load(r, S)
        ct = e.get('ct') or e.get('t')
        op = e['op']
        op = op[:-1] if op.endswith('=') and op != '=' else op
        nv = self.binop(op, old, v, ct, S, e, F)
        lt_ = self.noref(e['lhs']['t'])
        nv = self.numconv(nv, ct, lt_)
        self.store(r, nv, S)
        return r

    def numconv(self, v, src, dst):
        if not isinstance(v, DD) or not src or not dst:
            return v
        if src.get('k') == 'float' and dst.get('k') == 'int':
            return V.MATH['trunc'](v)
        if src.get('k') == 'float' and dst.get('k') == 'float' and src.get('w') == 64 and dst.get('w') == 32:
            return V.f32(v)
        return v

    def e_bin(self, e, S, F):
        op = e['op']
        if op in ('&&', '||'):
            a = self.tobool(self.ev(e['lhs'], S, F))
            g = a if op == '&&' else NOT(a)
            if g is FALSE:
                return a
            A = St(dict(S.env), AND(S.pc, g), S.ctx)
            n = A.pc
            b = self.tobool(self.ev(e['rhs'], A, F))
            S.env = self.merge(g, A.env, S.env) if g is not TRUE else A.env
            return AND(a, b) if op == '&&' else OR(a, b)
        if op == ',':
            self.go(e['lhs'], S, F)
            return self.go(e['rhs'], S, F)
        a = self.ev(e['lhs'], S, F)
        b = self.ev(e['rhs'], S, F)
        return self.binop(op, a, b, e['lhs']['t'] if op in ('/', '%') or op in CMP else e['t'], S, e, F)

    def binop(self, op, a, b, t, S, e, F):
        if op in CMP:
            return self.compare(op, a, b)
        if isinstance(a, Rec) or isinstance(b, Rec):
            return self.unk('binrec', a, b)
        isint = t.get('k') in ('int', 'bool', 'enum')
        if op == '+':
            return add(a, b)
        if op == '-':
            return sub(a, b)
        if op == '*':
            return mul(a, b)
        if op == '/':
            if isint:
                self.event('div', NOT(keyeq(b, D(0))), S, e, F)
                return V.idiv(a, b)
            self.event('fdiv', NOT(cmpd(b, D(0), 'eq')), S, e, F)
            return V.div(a, b)
        if op == '%':
            self.event('div', NOT(keyeq(b, D(0))), S, e, F)
            return V.mod(a, b)
        if op in ('&', '|') and t.get('k') == 'bool':
            return AND(self.tobool(a), self.tobool(b)) if op == '&' else OR(self.tobool(a), self.tobool(b))
        if op in ('&', '|', '^', '<<', '>>'):
            c, d = (isconst(x.term) if x.var is None else None for x in (a, b))
            if c is not None and d is not None:
                c, d = int(c), int(d)
                return D({'&': c & d, '|': c | d, '^': c ^ d, '<<': c << d if d < 64 else 0, '>>': c >> d}[op])
            nm = {'&': 'band', '|': 'bor', '^': 'bxor', '<<': 'shl', '>>': 'shr'}[op]
            x, y = a, b
            if op in '&|^':
                return apply(lambda p, q: T(nm, *sorted((p, q), key=lambda z: z.key), isint=True, dom=(0, None)), x, y)
            return apply(lambda p, q: T(nm, p, q, isint=True), x, y)
        return self.unk('bin' + op, a, b, ty=e['t'])

    def compare(self, op, a, b):
        if op in ('==', '!='):
            r = self.equal(a, b)
            return r if op == '==' else NOT(r)
        if isinstance(a, Rec) or isinstance(b, Rec):
            return self.unk_bool('cmprec', a, b)
        rel = {'<': 'lt', '<=': 'le', '>': 'gt', '>=': 'ge'}[op]
        return cmpd(a, b, rel)

    def equal(self, a, b):
        if isinstance(a, Rec) and a.ty == '#it' or isinstance(b, Rec) and b.ty == '#it':
            i, j = getf(a, 'i', INTT), getf(b, 'i', INTT)
            for p, q in ((i, j), (j, i)):
                if isinstance(p, DD) and isinstance(q, DD):
                    ls = list(leaves(p))
                    if ls and all(t.op == 'mfind' and t.args[1] is ls[0].args[1] for t in ls):
                        c = vmap(p, lambda t: _cl(t.args[0]))
                        if size(c) is q:
                            return NOT(has(c, _cl(ls[0].args[1])))
            return keyeq(i, j)
        if isinstance(a, DD) and isinstance(b, DD):
            def f(x, y):
                for p, q in ((x, y), (y, x)):
                    if p.op in ('box', 'addr', 'lam') and q.op == 'null':
                        return FALSE
                return V.eq_terms(x, y)
            return apply(f, a, b)
        return keyeq(a, b)

    def e_cond(self, e, S, F):
        c = self.tobool(self.ev(e['c'], S, F))
        if c is TRUE:
            return self.go(e['a'], S, F)
        if c is FALSE:
            return self.go(e['b'], S, F)
        A = St(dict(S.env), AND(S.pc, c), S.ctx)
        B = St(dict(S.env), AND(S.pc, NOT(c)), S.ctx)
        a = self.go(e['a'], A, F)
        b = self.go(e['b'], B, F)
        if isinstance(a, (Loc, Choice)) and isinstance(b, (Loc, Choice)):
            S.env = self.merge(c, A.env, B.env)
            a, b = self.resolve(a, S), self.resolve(b, S)
            return a if self.sameloc(a, b) else Choice(c, a, b)
        va = self.load(a, A) if isinstance(a, (Loc, Choice)) else a
        vb = self.load(b, B) if isinstance(b, (Loc, Choice)) else b
        S.env = self.merge(c, A.env, B.env)
        if A.pc is FALSE:
            S.pc = AND(S.pc, NOT(c))
            return vb
        if B.pc is FALSE:
            S.pc = AND(S.pc, c)
            return va
        if va is None or vb is None:
            return va if va is not None else vb
        return ite(c, va, vb)

    def e_index(self, e, S, F):
        b = self.go(e['b'], S, F)
        i = self.ev(e['i'], S, F)
        ety = self.noref(e['t'])
        if isinstance(b, (Loc, Choice)):
            return b / ('i', i, tyid(ety))
        return nth(b, i, ety) if isinstance(b, DD) else self.unk('index', ty=ety)

    def e_cast(self, e, S, F):
        ck = e['ck']
        t = self.noref(e['t'])
        if ck in ('NoOp', 'LValueToRValue', 'ConstructorConversion', 'UserDefinedConversion', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'Dynamic'):
            return self.go(e['e'], S, F)
        if ck == 'ToVoid':
            self.go(e['e'], S, F)
            return None
        v = self.ev(e['e'], S, F)
        src = self.noref(e['e'].get('t') or {})
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'):
            return self.tobool(v)
        if not isinstance(v, DD):
            return v
        if ck == 'FloatingToIntegral':
            return V.MATH['trunc'](v)
        if ck == 'FloatingCast':
            if t.get('w') == 32 and src.get('w', 64) != 32:
                return V.f32(v)
            return v
        if ck in ('IntegralToFloating', 'IntegralCast', 'ArrayToPointerDecay', 'NullToPointer', 'BitCast', 'FunctionToPointerDecay', 'BuiltinFnToFnPtr', 'BooleanToSignedIntegral'):
            if ck == 'NullToPointer':
                return L(T('null'))
            if ck == 'IntegralCast' and t.get('k') == 'int':
                w, w0 = t.get('w', 64), src.get('w', 32 if src.get('k') == 'enum' else 64)
                if w < w0 and not all(isconst(x) is not None and abs(isconst(x)) < 2 ** 31 for x in leaves(v)):
                    return apply(lambda x: x if isconst(x) is not None else T('narrow%d' % w, x, isint=True), v)
            return v
        return v

    def e_new(self, e, S, F):
        i = e.get('e')
        if i is not None:
            v = self.ev(i, S, F)
        else:
            v = self.default(e['nt'])
        return L(T('box', norm(v))) if v is not None else self.unk('new')

    def e_delete(self, e, S, F):
        self.go(e['e'], S, F)
        return None

    def e_throw(self, e, S, F):
        f = F
        if S.pc is not FALSE:
            F.exits.append(('throw', S.pc, dict(S.env), None))
        S.pc = FALSE
        return None

    def e_fnref(self, e, S, F):
        return L(T('fnref', e['f']['id']))

    def e_mfnref(self, e, S, F):
        return L(T('fnref', e['f']['id'])) if isinstance(e.get('f'), dict) else self.unk('mfnref')

    def e_lambda(self, e, S, F):
        self.nroot += 1
        inst = T('lam', self.nroot)
        caps = {}
        this = None
        for c in e.get('caps', []):
            if c.get('this'):
                continue
            if c.get('init') is not None:
                caps[c['id']] = self.ev(c['init'], S, F)
            elif not c.get('byref'):
                r = self.root(F, c['id'], S)
                if r is not None:
                    caps[c['id']] = self.load(Loc(r), S)
            else:
                r = self.root(F, c['id'], S)
                if r is not None:
                    caps[c['id']] = Ref(self.resolve(Loc(r), S))
        f = F
        while f and f.this is None:
            f = f.parent
        self.lams[inst] = (e, caps, F, f.this if f else None)
        return L(inst)

    def e_unknown(self, e, S, F):
        for c in e.get('ch', []):
            if isinstance(c, dict) and c.get('k'):
                self.go(c, S, F)
        return self.unk('expr:' + str(e.get('cls')), ty=e.get('t'))

    # ---------------------------------------------------------------------- calls
    def callv(self, fv, args, S, F, rt=None):
        """invoke a callable value on args [('v'|'l', x)]"""
        if isinstance(fv, DD) and fv.var is None:
            t = fv.term
            if t in self.lams:
                return self.invoke_lambda(t, args, S, F)
            if t.op == 'fnref':
                fn = self.find(t.args[0])
                if fn:
                    return self.invoke(fn, args, None, S, F)
        if isinstance(fv, Rec):
            for p in self.progs:
                for fn in p.byname.get((RECORDS.get(fv.ty) or {}).get('n', fv.ty or '') + '::operator()', []) if hasattr(p, 'byname') else []:
                    if fn.get('body') and len(fn['params']) == len(args):
                        return self.invoke(fn, args, self.tmp(fv, S), S, F)
        return self.unk('callv', *[a[1] if a[0] == 'v' else self.load(a[1], S) for a in args], ty=rt)

    def invoke_lambda(self, t, args, S, F):
        e, caps, cf, this = self.lams[t]
        G = Frame(None, this, cf, (F.depth + 1) if F else 0, tu=cf.tu)
        G.retref = bool(e.get('ret') and e['ret'].get('ref'))
        if G.depth > self.MAXDEPTH:
            return self.unk('depth')
        for cid, v in caps.items():
            S.env[('v', G.id, cid)] = v
        for p, a in zip(e['params'], args):
            root = ('v', G.id, p['id'])
            self.rtype[root] = self.noref(p['t'])
            if a[0] == 'l' and p['t'].get('ref'):
                S.env[root] = Ref(a[1])
            elif a[0] == 'l':
                S.env[root] = self.load(a[1], S)
            else:
                S.env[root] = a[1]
        return self.run_body(e, e['body'], G, S, e.get('ret'))

    def callb(self, fv, args, S, F):
        r = self.callv(fv, args, S, F, BOOLT)
        if isinstance(r, (Loc, Choice)):
            r = self.load(r, S)
        return self.tobool(r)

    def callx(self, fv, args, S, F, rt=None):
        r = self.callv(fv, args, S, F, rt)
        if isinstance(r, (Loc, Choice)):
            r = self.load(r, S)
        return r

    def e_call(self, e, S, F):
        f = e.get('f')
        if not isinstance(f, dict):
            fv = self.ev(e['ce'], S, F) if e.get('ce') else None
            args = [self.arg(a, S, F) for a in e.get('a', [])]
            if fv is None:
                return self.unk('call', ty=e['t'])
            return self.callv(fv, args, S, F, e['t'])
        if f.get('inroot'):
            return self.repo_call(f, None, e.get('a', []), e, S, F)
        return self.lib_call(f, e, S, F)

    def e_opcall(self, e, S, F):
        f = e['f']
        a = e['a']
        op = e['op']
        if op == '()' and f.get('lambda') is not None:
            fv = self.ev(a[0], S, F)
            args = [self.arg(x, S, F) for x in a[1:]]
            return self.callv(fv, args, S, F, e['t'])
        if f.get('inroot'):
            if op == '=' and (f.get('implicit') or f.get('assignop')):
                fn = self.find_decl(f['id'])
                if fn is None or fn.get('implicit') or not fn.get('body'):
                    v = self.ev(a[1], S, F)
                    r = self.go(a[0], S, F)
                    if isinstance(r, (Loc, Choice)):
                        r = self.resolve(r, S)
                        self.store(r, v, S)
                        return r
                    return v
            if f.get('method') and not f.get('static'):
                return self.repo_call(f, (a[0], False), a[1:], e, S, F)
            return self.repo_call(f, None, a, e, S, F)
        return self.lib_op(op, f, a, e, S, F)

    def e_mcall(self, e, S, F):
        f = e['f']
        if not isinstance(f, dict):
            return self.unk('mcall', ty=e['t'])
        if f.get('inroot'):
            return self.repo_call(f, (e['o'], e.get('arrow')), e.get('a', []), e, S, F)
        return self.lib_method(f, e, S, F)

    def repo_call(self, f, obj, aexprs, e, S, F):
        fn = self.find_decl(f['id'])
        params = fn['params'] if fn else [{'t': t, 'id': -1, 'n': ''} for t in f.get('pt', [])]
        thisv = None
        if obj is not None and not f.get('static'):
            oe, arrow = obj
            thisv = self.target(oe, S, F) if arrow else self.go(oe, S, F)
            if isinstance(thisv, (Loc, Choice)):
                thisv = self.resolve(thisv, S)
            else:
                ot = self.noref(oe['t'])
                thisv = self.tmp(thisv if thisv is not None else DDC, S, ot.get('to') if arrow else ot)
        args = []
        for i, a in enumerate(aexprs):
            args.append(self.arg(a, S, F, params[i]['t'] if i < len(params) else None))
        if f.get('virt') and not e.get('qual') and thisv is not None:
            fn = self.dispatch(f, fn, thisv, S)
        if fn is not None and fn.get('body') is None and not fn.get('isctor'):
            fn = self.find(f['id'])
        if fn is None or self.opaque(fn) or fn['id'] in self.idstack or (F and F.depth > self.MAXDEPTH):
            return self.opaque_call(f, fn, thisv, args, e, S, F)
        if isinstance(thisv, Choice):
            thisv2 = thisv
        self.idstack.append(fn['id'])
        try:
            return self.invoke(fn, args, thisv, S, F)
        finally:
            self.idstack.pop()

    def dispatch(self, f, fn, thisv, S):
        v = self.load(thisv, S)
        dyn = None
        if isinstance(v, Rec):
            dyn = v.ty
        elif isinstance(v, DD):
            return None if v.var is not None else self.unique_impl(f, fn)
        cands = []
        for p in self.progs:
            for o in p.overrides.get(f['id'], []):
                cands.append(o)
                for o2 in p.overrides.get(o['id'], []):
                    cands.append(o2)
        for o in cands:
            if o.get('rec') == dyn:
                return o
        if fn is not None and fn.get('rec') == dyn and isinstance(v, Rec) and v.base is None and fn.get('body'):
            return fn
        return self.unique_impl(f, fn)

    def unique_impl(self, f, fn):
        c = {}
        for p in self.progs:
            for o in p.overrides.get(f['id'], []):
                if o.get('body'):
                    c[o['id']] = o
        if fn is not None and fn.get('body'):
            c[fn['id']] = fn
        return list(c.values())[0] if len(c) == 1 else None

    def noaddr(self, v, S, outs=None, i=None):
        """replace addresses of analysed objects by their contents (names of variables carry no meaning)"""
        if isinstance(v, Rec):
            return Rec(v.ty, v.base, {k: self.noaddr(x, S) for k, x in v.f.items()})
        if isinstance(v, DD):
            l = self.unaddr(v)
            if l is None:
                return v
            x = self.load(l, S)
            if outs is not None:
                a = l
                while isinstance(a, Choice):
                    a = a.a
                outs.append((i, l, self.loctype(a) or {'k': 'float', 'w': 64}))
            return L(T('ptr', norm(x)))
        return v

    def callkey(self, f):
        return f['id']

    def opaque_call(self, f, fn, thisv, args, e, S, F):
        self.opaqued.add(f['id'])
        vals = [a[1] if a[0] == 'v' else self.load(a[1], S) for a in args]
        ov = self.load(thisv, S) if thisv is not None else None
        outs = []
        vals = [self.noaddr(v, S, outs if (self.noref((f.get('pt') or [{}] * 99)[min(i, len(f.get('pt') or []) - 1)] if f.get('pt') else {}).get('k') == 'ptr' and
                                           not ((f['pt'][min(i, len(f['pt']) - 1)].get('to') or {}).get('const'))) else None, i) for i, v in enumerate(vals)]
        t = T('call', self.callkey(f), *[norm(v) for v in vals], *([norm(self.noaddr(ov, S))] if ov is not None else []))
        for i, l, ty in outs:
            self.store(l, typed('post', ty, t, i), S)
        params = f.get('pt', [])
        for i, a in enumerate(args):
            pt = params[i] if i < len(params) else {}
            if a[0] == 'l' and pt.get('ref') and not pt.get('const') and not pt.get('rv'):
                self.store(a[1], typed('post', self.noref(pt), t, i), S)
        if thisv is not None and not f.get('const') and not f.get('static'):
            lt_ = self.loctype(thisv) if isinstance(thisv, Loc) else None
            if isinstance(ov, Rec):
                lt_ = lt_ or TYPES.get(ov.ty) or {'k': 'rec', 'n': ov.ty}
            self.store(thisv, typed('post', lt_ or {'k': 'other'}, t, 'this'), S)
        rt = e.get('t') or {}
        if rt.get('k') == 'void':
            return None
        rt = self.noref(rt)
        return fromterm(T('call', self.callkey(f), *t.args[1:], isint=rt.get('k') in ('int', 'bool', 'enum'),
                          dom=(0, 1) if rt.get('k') == 'bool' else ((0, None) if rt.get('u') else None)), rt)

    # ----------------------------------------------------------------- constructors
    def e_ctor(self, e, S, F):
        t = self.noref(e['t'])
        f = e.get('f') or {}
        a = e.get('a', [])
        if t.get('k') != 'rec':
            return self.ev(a[0], S, F) if a else self.default(t)
        key = reckey(t)
        TYPES.setdefault(key, t)
        if t.get('lambda') is not None and a:
            return self.ev(a[0], S, F)
        if key in RECORDS and (f.get('inroot') or f.get('implicit') or e.get('copy')):
            fn = self.find_decl(f['id']) if f.get('id') else None
            if e.get('copy') and a and (fn is None or fn.get('implicit') or not (fn.get('body') or fn.get('inits'))):
                return self.ev(a[0], S, F)
            if fn is not None and (fn.get('body') or fn.get('inits')) and not fn.get('implicit'):
                args = [self.arg(x, S, F, fn['params'][i]['t'] if i < len(fn['params']) else None) for i, x in enumerate(a)]
                if self.opaque(fn):
                    return self.opaque_call(f, fn, None, args, dict(e, t=t), S, F)
                self.idstack.append(fn['id'])
                try:
                    return self.run_ctor(fn, args, S, F, t)
                finally:
                    self.idstack.pop()
            if not a:
                v = self.construct_default(t)
                if e.get('zero') and isinstance(v, Rec) and not any(c.get('user') and c.get('default') for c in RECORDS[key].get('ctors', [])):
                    for n, ft in (fields(key) or {}).items():
                        x = v.f.get(n)
                        if isinstance(x, DD) and x.var is None and x.term.op == 'uninit':
                            v = setf(v, n, self.default(ft))
                return v
            if e.get('copy'):
                return self.ev(a[0], S, F)
            args = [self.arg(x, S, F) for x in a]
            return self.opaque_call(f, None, None, args, dict(e, t=t), S, F)
        return self.lib_ctor(t, key, f, a, e, S, F)

    def lib_ctor(self, t, key, f, a, e, S, F):
        n = t.get('n')
        if e.get('copy') and a:
            return self.ev(a[0], S, F)
        a = [x for x in a if not ((x.get('t') or {}).get('n') in ('std::allocator', 'std::less', 'std::hash', 'std::equal_to') or x['k'] == 'definit' and 'alloc' in str(x.get('t')))]
        if n in CONT:
            if not a:
                return L(EMPTY)
            vals = [self.ev(x, S, F) for x in a]
            ety = elem_type(t)
            at = self.noref(a[0]['t'])
            if len(a) >= 2 and isinstance(vals[0], Rec) and vals[0].ty == '#it':
                r = self.span(vals[0], vals[1], S)
                if r is None:
                    return self.unk('ctorrange')
                if n in SETS or n in MAPS:
                    return self.insert_all(t, L(EMPTY), r, S)
                return r
            if len(a) == 1:
                if at.get('k') == 'int':
                    return self.fill(vals[0], self.default(ety))
                v = vals[0]
                if n in SETS or n in MAPS:
                    return self.insert_all(t, L(EMPTY), v, S)
                return v
            if len(a) == 2 and at.get('k') == 'int':
                return self.fill(vals[0], vals[1])
            return self.unk('ctor:' + n, *vals, ty=t)
        if n in ITERS:
            return self.ev(a[0], S, F) if a else Rec('#it', None, {'c': DDC, 'i': DDC})
        if n in PTRS:
            return self.ev(a[0], S, F) if a else L(T('null'))
        if n in ('boost::optional', 'std::optional'):
            if not a or (a[0].get('t') or {}).get('n') in ('boost::none_t', 'std::nullopt_t'):
                return Rec(key, None, {'has': FALSE, 'val': DDC})
            at = self.noref(a[0]['t'])
            v = self.ev(a[0], S, F)
            if at.get('n') == n:
                return v
            return Rec(key, None, {'has': TRUE, 'val': v})
        if n == 'std::basic_string':
            if not a:
                return L(T('str', ''))
            return self.ev(a[0], S, F) if len(a) == 1 else L(T('lib:string', *[norm(self.ev(x, S, F)) for x in a]))
        if n == 'boost::geometry::model::polygon':
            v0 = self.ev(a[0], S, F) if a else L(EMPTY)
            if a and isinstance(v0, DD) and len(leaves(v0)) == 1 and leaves_first(v0).op == 'vec':
                its = leaves_first(v0).args
                return Rec(key, None, {'outer': _cl(its[0]) if its else L(EMPTY), 'inners': L(T('vec', *its[1:]))})
            if not a:
                return Rec(key, None, {'outer': L(EMPTY), 'inners': L(EMPTY)})
        fs = libfields(t)
        if fs is not None:
            if len(a) == len(fs):
                return Rec(key, None, {x: self.ev(y, S, F) for x, y in zip(fs, a)})
            if not a:
                return Rec(key, None, {x: self.default(y) for x, y in fs.items()})
        if n == 'boost::variant' and len(a) == 1:
            v = self.ev(a[0], S, F)
            return L(T('variant', reckey(self.noref(a[0]['t'])), norm(v)))
        if n == 'std::function' and a:
            return self.ev(a[0], S, F)
        if not a:
            return L(T('lib:ctor:' + strip(n or '?')))
        return L(T('lib:ctor:' + strip(n or '?'), *[norm(self.ev(x, S, F)) for x in a]))

    def fill(self, n, v):
        c = isconst(n.term) if isinstance(n, DD) and n.var is None else None
        if c is not None and 0 <= c <= 16:
            return vec(*([v] * int(c)))
        if V.INSTANCE[0] is not None and isinstance(n, DD):
            # a size that depends on unknowns but is small
            top = next((b for b in range(1, 5) if lt(D(b), n) is FALSE), None)
            if top is not None:
                r = vec(*([v] * top))
                for j in range(top - 1, -1, -1):
                    r = ite(lt(n, D(j + 1)), vec(*([v] * j)), r)
                return r
        return L(T('fill', norm(n), norm(v)))

    # ------------------------------------------------------------------ containers
    def span(self, b, e, S):
        """the sequence value designated by iterators [b, e)"""
        if not (isinstance(b, Rec) and isinstance(e, Rec)):
            return None
        cl = self.unaddr(getf(b, 'c'))
        if cl is None:
            return L(T('itspan', norm(b), norm(e)))
        c = self.load(cl, S)
        if not isinstance(c, DD):
            return None
        i, j = getf(b, 'i', INTT), getf(e, 'i', INTT)
        if j is not size(c):
            c = V.take(c, j)
        if i is not D(0):
            c = V.drop(c, i)
        return c

    def insert_all(self, t, c, items, S):
        d = items
        if isinstance(d, DD) and d.var is None and d.term.op == 'vec':
            for x in d.term.args:
                c = self.insert1(t, c, _cl(x))
            return c
        if isinstance(d, DD) and d.var is None and d.term.op == 'sput' and t.get('n') in SETS:
            ks, u = [], d.term
            while u.op == 'sput' and isinstance(u.args[0], Term):
                ks.append(u.args[1])
                u = u.args[0]
            if u is EMPTY:
                if c is L(EMPTY):
                    return d
                for k in reversed(ks):
                    c = self.insert1(t, c, _cl(k))
                return c
        if isinstance(d, DD) and d.var is None and c is L(EMPTY) and d.term.op in ('collect', 'nth', 'sym', 'sel', 'take', 'drop', 'cat', 'sorted'):
            return L(T('toset' if t.get('n') in SETS else 'tomap', d.term))
        return L(T('lib:insert_all', norm(c), norm(items)))

    def insert1(self, t, c, x):
        if t.get('n') in SETS:
            return vmap(c, lambda u: L(u) if u.op == 'sput' and u.args[1] == norm(x) else L(T('sput', u, norm(x))))
        ety = elem_type(t)
        k, v = getf(x, 'first', (ety.get('ta') or [None])[0]), getf(x, 'second', (ety.get('ta') or [None, None])[1])
        if t.get('n') == 'std::multimap':
            return vmap(c, lambda u: L(T('mmput', u, norm(k), norm(v))))
        # insert keeps an existing entry
        return vmap(c, lambda u: ite(has(L(u), k), L(u), mput(L(u), k, v)))

    def begin(self, loc, S):
        return Rec('#it', None, {'c': self.addr(self.resolve(loc, S)), 'i': D(0)})

    def end(self, loc, S):
        v = self.load(loc, S)
        n = size(v) if isinstance(v, DD) else self.unk('size')
        return Rec('#it', None, {'c': self.addr(self.resolve(loc, S)), 'i': n})

    def atloc(self, loc, i):
        return Rec('#it', None, {'c': self.addr(loc), 'i': i})

    def lib_method(self, f, e, S, F):
        name = strip(f['n'])
        cls, _, m = name.rpartition('::')
        oe = e['o']
        ot = self.noref(oe['t'])
        if e.get('arrow'):
            base = self.target(oe, S, F)
            ot = self.noref(ot.get('to') or (ot.get('ta') or [{}])[0] or {})
            if oe['k'] == 'opcall' and oe.get('op') == '->':
                ot = self.noref((oe['t'].get('to')) or {})
        else:
            base = self.go(oe, S, F)
        if base is None:
            base = self.unk('obj')
        a = e.get('a', [])
        n = ot.get('n')
        if isinstance(base, (Loc, Choice)):
            loc = self.resolve(base, S)
        else:
            loc = self.tmp(base, S, ot)
        if n in CONT or cls in CONT:
            return self.cont_method(n or cls, m, loc, ot, a, e, S, F)
        v = self.load(loc, S)
        if 'optional' in cls:
            if m in ('get', 'value', 'operator*'):
                return self.optget(loc, v, ot if 'optional' in str(n) else TYPES.get(v.ty, ot), S, e, F)
            if m in ('is_initialized', 'has_value', 'operator bool'):
                return self.tobool(v)
            if m == 'reset':
                self.store(loc, Rec(reckey(ot), None, {'has': FALSE, 'val': DDC}), S)
                return None
            if m in ('get_value_or', 'value_or'):
                d = self.ev(a[0], S, F)
                return ite(self.tobool(v), getf(v, 'val', (ot.get('ta') or [None])[0]), d)
            if m in ('operator=', 'emplace'):
                x = self.ev(a[0], S, F)
                self.store(loc, self.wrapopt(x, a[0], ot), S)
                return loc
        if n in PTRS or 'shared_ptr' in cls or 'unique_ptr' in cls:
            if m in ('operator bool',):
                return self.tobool(v)
            if m == 'get':
                l = self.unaddr(v)
                return v if not isinstance(base, (Loc, Choice)) else loc
            if m == 'reset':
                self.store(loc, self.ev(a[0], S, F) if a else L(T('null')), S)
                return None
            if m == 'operator=':
                self.store(loc, self.ev(a[0], S, F), S)
                return loc
        if n == 'std::basic_string' or 'basic_string' in cls:
            if m in ('size', 'length'):
                return apply(lambda t: const(len(t.args[0])) if t.op == 'str' else T('strlen', t, isint=True, dom=(0, None)), v)
            if m == 'empty':
                return self.equal(v, L(T('str', '')))
            if m == 'c_str':
                return v
            if m == 'operator=':
                self.store(loc, self.ev(a[0], S, F), S)
                return loc
            if m == 'clear':
                self.store(loc, L(T('str', '')), S)
                return None
        if n in ('boost::geometry::model::d2::point_xy',) or cls.endswith('point_xy'):
            if m in ('x', 'y'):
                if a:
                    self.store(loc / ('f', m, tyid(DBLT), reckey(ot)), self.ev(a[0], S, F), S)
                    return None
                return loc / ('f', m, tyid(DBLT), reckey(ot))
        if cls.endswith('model::box') and m in ('min_corner', 'max_corner'):
            TYPES.setdefault(reckey(ot), ot)
            return loc / ('f', m[:3], tyid((ot.get('ta') or [None])[0]), reckey(ot))
        if cls.endswith('model::polygon') and m in ('outer', 'inners'):
            TYPES.setdefault(reckey(ot), ot)
            return loc / ('f', m, tyid(libfields(ot)[m] if libfields(ot) else None), reckey(ot))
        if m == 'operator=':
            x = self.ev(a[0], S, F)
            self.store(loc, x, S)
            return loc
        args = [self.arg(x, S, F) for x in a]
        vals = [x[1] if x[0] == 'v' else self.load(x[1], S) for x in args]
        t = T('lib:' + m, norm(v), *[norm(self.shown(x, S)) for x in vals])
        pts = f.get('pt', [])
        for i, x in enumerate(args):
            if x[0] == 'l' and i < len(pts) and pts[i].get('ref') and not pts[i].get('const') and not pts[i].get('rv'):
                self.store(x[1], typed('post', self.loctype(x[1]) or self.noref(pts[i]), t, i), S)
        if not f.get('const') and not f.get('static') and cls.split('::')[0] != 'Eigen':
            self.store(loc, typed('post', ot, t, 'this'), S)
        self.escape(vals, None, t, S)
        rt = e.get('t', {})
        if rt.get('k') == 'void':
            return None
        return fromterm(T('lib:' + m, *t.args, isint=rt.get('k') in ('int', 'bool', 'enum'), dom=(0, 1) if rt.get('k') == 'bool' else None), self.noref(rt))

    def wrapopt(self, x, ae, ot):
        at = self.noref(ae['t'])
        key = reckey(ot)
        TYPES.setdefault(key, ot)
        if at.get('n') in ('boost::none_t', 'std::nullopt_t'):
            return Rec(key, None, {'has': FALSE, 'val': DDC})
        if 'optional' in (at.get('n') or ''):
            return x
        return Rec(key, None, {'has': TRUE, 'val': x})

    def cont_method(self, n, m, loc, ot, a, e, S, F):
        c = self.load(loc, S)
        if isinstance(c, Rec):
            if c.base is not None:
                c = L(c.base)
            else:
                return self.unk('contrec:' + m, ty=e.get('t'))
        ety = elem_type(ot)
        et = tyid(ety)
        sz = size(c)
        if m == 'size':
            return sz
        if m == 'empty':
            return keyeq(sz, D(0)) if not _ismaplike(c) else cmpd(sz, D(0), 'eq')
        if m in ('begin', 'cbegin'):
            return self.begin(loc, S)
        if m in ('end', 'cend'):
            return self.end(loc, S)
        if m in ('rbegin', 'crbegin'):
            return Rec('#rit', None, {'c': self.addr(loc), 'i': D(0)})
        if m in ('rend', 'crend'):
            return Rec('#rit', None, {'c': self.addr(loc), 'i': sz})
        if m in ('clear',):
            self.store(loc, L(EMPTY), S)
            return None
        if m in ('reserve', 'shrink_to_fit', 'max_size', 'capacity'):
            for x in a:
                self.ev(x, S, F)
            return None
        if m == 'operator=':
            self.store(loc, self.ev(a[0], S, F), S)
            return loc
        if m == 'swap':
            o = self.loc_of(a[0], S, F)
            v2 = self.load(o, S)
            self.store(o, c, S)
            self.store(loc, v2, S)
            return None
        if n in MAPS:
            kt, vt = (ot.get('ta') or [None, None])[:2] if len(ot.get('ta') or []) >= 2 else (None, None)
            if m == 'at':
                k = self.ev(a[0], S, F)
                self.event('mapat', has(c, k), S, e, F)
                return loc / ('mv', norm(k), tyid(self.noref(e['t'])))
            if m == 'operator[]':
                k = self.ev(a[0], S, F)
                return loc / ('mk', norm(k), tyid(self.noref(e['t'])))
            if m == 'find':
                k = self.ev(a[0], S, F)
                return self.atloc(loc, vmap(c, lambda t: L(T('mfind', t, norm(k), isint=True, dom=(0, None)))))
            if m in ('count', 'contains'):
                k = self.ev(a[0], S, F)
                if n == 'std::multimap':
                    return sub(V.bound('ub', c, k), V.bound('lb', c, k))
                return has(c, k)
            if m in ('insert', 'emplace'):
                if len(a) == 1:
                    x = self.ev(a[0], S, F)
                    if isinstance(x, DD) and x.var is None and x.term.op == 'vec':
                        self.store(loc, self.insert_all(ot, c, x, S), S)
                        return None
                    if isinstance(x, DD):
                        x = fromterm(x.term, ety) if x.var is None else x
                    k = getf(x, 'first', kt)
                    self.store(loc, self.insert1(ot, c, x), S)
                    return self.insres(e, loc, c, k)
                if len(a) == 2:
                    k, v = self.ev(a[0], S, F), self.ev(a[1], S, F)
                    if isinstance(k, Rec) and k.ty == '#it':
                        s = self.span(k, v, S)
                        self.store(loc, self.insert_all(ot, c, s, S) if s is not None else self.unk('insert'), S)
                        return None
                    key = reckey(ety)
                    TYPES.setdefault(key, ety)
                    self.store(loc, self.insert1(ot, c, Rec(key, None, {'first': k, 'second': v})), S)
                    return self.insres(e, loc, c, k)
            if m in ('insert_or_assign',):
                k, v = self.ev(a[0], S, F), self.ev(a[1], S, F)
                self.store(loc, mput(c, k, v), S)
                return None
            if m == 'erase':
                k = self.ev(a[0], S, F)
                if isinstance(k, Rec) and k.ty == '#it':
                    k = getf(k, 'i', INTT)
                    self.store(loc, L(T('meraseat', norm(c), norm(k))), S)
                else:
                    self.store(loc, L(T('merase', norm(c), norm(k))), S)
                return self.unk('erase', ty=e.get('t'))
            if m == 'equal_range':
                k = self.ev(a[0], S, F)
                rt = self.noref(e['t'])
                key = reckey(rt)
                TYPES.setdefault(key, rt)
                return Rec(key, None, {'first': self.atloc(loc, V.bound('lb', c, k)),
                                       'second': self.atloc(loc, V.bound('ub', c, k))})
            if m in ('lower_bound', 'upper_bound'):
                k = self.ev(a[0], S, F)
                return self.atloc(loc, V.bound('lb' if m[0] == 'l' else 'ub', c, k))
        if n in SETS:
            if m == 'find':
                k = self.ev(a[0], S, F)
                return self.atloc(loc, vmap(c, lambda t: L(T('mfind', t, norm(k), isint=True, dom=(0, None)))))
            if m in ('count', 'contains'):
                return has(c, self.ev(a[0], S, F))
            if m in ('insert', 'emplace'):
                if len(a) == 1:
                    x = self.ev(a[0], S, F)
                    self.store(loc, self.insert1(ot, c, x), S)
                    return self.insres(e, loc, c, x)
                b, en = self.ev(a[0], S, F), self.ev(a[1], S, F)
                s = self.span(b, en, S)
                self.store(loc, self.insert_all(ot, c, s, S) if s is not None else self.unk('insert'), S)
                return None
            if m == 'erase':
                k = self.ev(a[0], S, F)
                self.store(loc, L(T('merase', norm(c), norm(k))), S)
                return None
        # sequences
        if m in ('push_back', 'emplace_back', 'push_front', 'emplace_front'):
            if m.startswith('push') or (len(a) == 1 and self.noref(a[0]['t']).get('n') == ety.get('n') and self.noref(a[0]['t']).get('k') == ety.get('k')):
                x = self.ev(a[0], S, F)
            else:
                x = self.construct(ety, a, S, F, e)
            c = self.load(loc, S)
            self.store(loc, cat(c, vec(x)) if m.endswith('back') else cat(vec(x), c), S)
            return (loc / ('i', sz, et)) if m == 'emplace_back' else None
        if m in ('pop_back', 'pop_front'):
            self.event('pop', cmpd(sz, D(0), 'gt'), S, e, F)
            self.store(loc, V.take(c, sub(sz, D(1))) if m == 'pop_back' else V.drop(c, D(1)), S)
            return None
        if m in ('front', 'back'):
            self.event('front' if m == 'front' else 'back', cmpd(sz, D(0), 'gt'), S, e, F)
            return loc / ('i', D(0) if m == 'front' else sub(sz, D(1)), et)
        if m in ('at', 'operator[]'):
            i = self.ev(a[0], S, F)
            self.event('index' if m != 'at' else 'at', AND(cmpd(i, D(0), 'ge'), lt(i, sz)), S, e, F)
            return loc / ('i', i, et)
        if m == 'resize':
            k = self.ev(a[0], S, F)
            self.event('size', cmpd(k, D(0), 'ge'), S, e, F)
            x = self.ev(a[1], S, F) if len(a) > 1 else self.default(ety)
            if c is L(EMPTY):
                self.store(loc, self.fill(k, x), S)
            else:
                self.store(loc, L(T('resize', norm(c), norm(k), norm(x))), S)
            return None
        if m == 'assign':
            x, y = self.ev(a[0], S, F), self.ev(a[1], S, F) if len(a) > 1 else None
            if isinstance(x, Rec) and x.ty == '#it':
                s = self.span(x, y, S)
                self.store(loc, s if s is not None else self.unk('assign'), S)
            else:
                self.store(loc, self.fill(x, y), S)
            return None
        if m == 'erase':
            b = self.ev(a[0], S, F)
            i = getf(b, 'i', INTT) if isinstance(b, Rec) and b.ty == '#it' else None
            if i is None:
                self.store(loc, self.unk('erase'), S)
                return self.unk('erase', ty=e.get('t'))
            if len(a) == 1:
                self.event('iter', self.validit(c, i, sz), S, e, F)
                nc = V.drop(c, D(1)) if i is D(0) else V.cat(V.take(c, i), V.drop(c, add(i, D(1))))
            else:
                en = self.ev(a[1], S, F)
                j = getf(en, 'i', INTT) if isinstance(en, Rec) else D(0)
                if isinstance(i, DD) and i.var is None and i.term.op == 'removed' and j is sz:
                    nc = L(i.term.args[0]) if isinstance(i.term.args[0], Term) else i.term.args[0]
                elif i is D(0):
                    nc = V.drop(c, j)
                elif j is sz:
                    nc = V.take(c, i)
                else:
                    nc = V.cat(V.take(c, i), V.drop(c, j))
            self.store(loc, nc, S)
            return self.atloc(loc, i)
        if m == 'insert':
            p = self.ev(a[0], S, F)
            i = getf(p, 'i', INTT) if isinstance(p, Rec) and p.ty == '#it' else None
            if len(a) == 2 and i is not None:
                x = vec(self.ev(a[1], S, F))
            elif len(a) == 3 and i is not None:
                x = self.span(self.ev(a[1], S, F), self.ev(a[2], S, F), S)
            else:
                x = None
            if x is None or i is None:
                self.store(loc, self.unk('insert'), S)
                return self.unk('insert', ty=e.get('t'))
            if i is sz:
                nc = cat(c, x)
            elif i is D(0):
                nc = cat(x, c)
            else:
                nc = cat(cat(V.take(c, i), x), V.drop(c, i))
            self.store(loc, nc, S)
            return self.atloc(loc, i)
        if m == 'data':
            return self.addr(loc)
        vals = [norm(self.ev(x, S, F)) for x in a]
        if not (e['f'].get('const')):
            self.store(loc, self.unk('cont:' + m), S)
        return self.unk('cont:' + m, c, *vals, ty=e.get('t') if e.get('t', {}).get('k') != 'void' else None)

    def insres(self, e, loc, c, k):
        rt = self.noref(e['t'])
        if rt.get('n') == 'std::pair':
            key = reckey(rt)
            TYPES.setdefault(key, rt)
            return Rec(key, None, {'first': self.atloc(loc, L(T('mfind', norm(c), norm(k), isint=True, dom=(0, None)))), 'second': NOT(has(c, k))})
        return None

    def construct(self, ty, a, S, F, e):
        """object of type ty built from constructor arguments a (emplace, make_*)"""
        key = reckey(ty) if ty and ty.get('k') == 'rec' else None
        if key is None:
            return self.ev(a[0], S, F) if a else self.default(ty)
        TYPES.setdefault(key, ty)
        if key in RECORDS:
            at = [self.noref(x['t']) for x in a]
            if len(a) == 1 and at[0].get('k') == 'rec' and reckey(at[0]) == key:
                return self.ev(a[0], S, F)
            best, sc = None, -1
            for p in self.progs:
                for fn in p.functions.values():
                    if fn.get('isctor') and fn.get('rec') == key and not fn.get('copyctor') and not fn.get('implicit') and len(fn['params']) == len(a):
                        s = sum(1 for pr, t in zip(fn['params'], at) if pr['t'].get('k') == t.get('k') and pr['t'].get('n') == t.get('n'))
                        if s > sc:
                            best, sc = fn, s
                if best:
                    break
            if best is not None:
                args = [self.arg(x, S, F, best['params'][i]['t']) for i, x in enumerate(a)]
                if self.opaque(best):
                    f = dict(id=best['id'], n=best['n'], pt=[p['t'] for p in best['params']], static=1)
                    return self.opaque_call(f, best, None, args, dict(e, t=ty), S, F)
                return self.run_ctor(best, args, S, F, ty)
            if not a:
                return self.construct_default(ty)
            return self.unk('construct:' + key, *[self.ev(x, S, F) for x in a], ty=ty)
        return self.lib_ctor(ty, key, {}, a, e, S, F)

    # ---------------------------------------------------------- library operators
    def lib_op(self, op, f, a, e, S, F):
        name = strip(f['n'])
        t0 = self.noref(a[0]['t'])
        n0 = t0.get('n') or ''
        if op in ('<<', '>>') and ('stream' in n0 or 'stream' in name or 'ostream' in str(e['t'].get('n'))):
            if op == '>>':
                r = self.go(a[0], S, F)
                d = self.go(a[1], S, F)
                if isinstance(d, (Loc, Choice)):
                    self.store(d, self.unk('stream', ty=self.noref(a[1]['t'])), S)
                return r
            v = self.ev(a[1], S, F)
            r = self.go(a[0], S, F)
            if isinstance(r, (Loc, Choice)):
                r = self.resolve(r, S)
                old = self.load(r, S)
                if not (isinstance(old, DD) and old.var is None and old.term.op == 'ostream'):
                    self.store(r, L(T('strm', norm(old), norm(v) if v is not None else L(T('str', '')))), S)
            return r
        if op == '[]':
            if n0 in CONT:
                loc = self.loc_of(a[0], S, F)
                return self.cont_method(n0, 'operator[]', loc, t0, [a[1]], e, S, F)
            if n0.startswith('Eigen'):
                return self.eigen_idx(a, e, S, F)
            if n0 in PTRS:
                pass
        if op == '()' and n0.startswith('Eigen'):
            return self.eigen_idx(a, e, S, F)
        if op == '=':
            v = self.ev(a[1], S, F)
            r = self.go(a[0], S, F)
            if n0 == 'std::tuple':
                return self.untie(r, v, S)
            if not isinstance(r, (Loc, Choice)):
                return v
            r = self.resolve(r, S)
            if 'optional' in n0:
                v = self.wrapopt(v, a[1], t0)
            if n0 in CONT and isinstance(v, DD) and v.var is None and v.term.op == 'vec' and n0 in (MAPS | SETS) and v.term.args:
                v = self.insert_all(t0, L(EMPTY), v, S)
            self.store(r, v, S)
            return r
        if op in ('*', '->') and len(a) == 1:
            return self.deref(a[0], S, F, e)
        if op in ('++', '--'):
            r = self.go(a[0], S, F)
            if isinstance(r, (Loc, Choice)):
                r = self.resolve(r, S)
                old = self.load(r, S)
                self.store(r, self.step_(old, 1 if op == '++' else -1), S)
                return old if len(a) == 2 else r
            return self.unk('incr')
        if op in ('+', '-') and n0 in ITERS or (op in ('+', '-') and 'iterator' in n0):
            x, y = self.ev(a[0], S, F), self.ev(a[1], S, F)
            if isinstance(x, Rec) and isinstance(y, Rec):
                return sub(getf(x, 'i', INTT), getf(y, 'i', INTT))
            if isinstance(x, Rec) and isinstance(y, DD):
                return setf(x, 'i', add(getf(x, 'i', INTT), y if op == '+' else neg(y)))
            return self.unk('itarith')
        if op in ('+=', '-=') and ('iterator' in n0):
            r = self.resolve(self.go(a[0], S, F), S)
            x, y = self.load(r, S), self.ev(a[1], S, F)
            self.store(r, setf(x, 'i', add(getf(x, 'i', INTT), y if op == '+=' else neg(y))), S)
            return r
        if op in CMP:
            x, y = self.ev(a[0], S, F), self.ev(a[1], S, F)
            if op in ('==', '!='):
                t1 = self.noref(a[1].get('t') or {})
                if 'optional' in n0 and (t1.get('n') in ('boost::none_t', 'std::nullopt_t')):
                    r = NOT(self.tobool(x))
                else:
                    r = self.equal(x, y)
                return r if op == '==' else NOT(r)
            if isinstance(x, Rec) and isinstance(y, Rec):
                if x.ty == '#it':
                    return self.compare(op, getf(x, 'i', INTT), getf(y, 'i', INTT))
                return self.lexless(x, y) if op == '<' else (self.lexless(y, x) if op == '>' else (NOT(self.lexless(y, x)) if op == '<=' else NOT(self.lexless(x, y))))
            if n0 == 'std::basic_string':
                return self.strless(op, x, y)
            return self.compare(op, x, y)
        if op == '!' and 'optional' in n0:
            return NOT(self.tobool(self.ev(a[0], S, F)))
        if op == '()':
            fv = self.ev(a[0], S, F)
            args = [self.arg(x, S, F) for x in a[1:]]
            if isinstance(fv, DD) and fv.var is None and (fv.term in self.lams or fv.term.op == 'fnref'):
                return self.callv(fv, args, S, F, e['t'])
            vals = [x[1] if x[0] == 'v' else self.load(x[1], S) for x in args]
            return fromterm(T('lib:' + strip(n0) + '()', norm(fv), *[norm(v) for v in vals]), self.noref(e['t']))
        if op == '+=' and n0 == 'std::basic_string':
            r = self.resolve(self.go(a[0], S, F), S)
            v = self.ev(a[1], S, F)
            self.store(r, L(T('lib:strcat', norm(self.load(r, S)), norm(v))), S)
            return r
        vals = [self.ev(x, S, F) for x in a]
        return fromterm(T('lib:op' + op, *[norm(v) for v in vals]), self.noref(e['t']))

    def lexless(self, x, y):
        fs = fields(x.ty) or {}
        r = FALSE
        for n, t in reversed(list(fs.items())):
            p, q = getf(x, n, t), getf(y, n, t)
            if isinstance(p, Rec):
                l1, l2 = self.lexless(p, q), self.lexless(q, p)
            else:
                l1, l2 = self.less(p, q), self.less(q, p)
            r = OR(l1, AND(NOT(l2), r))
        return r

    def less(self, p, q):
        return V.lift(lambda s, t: cmp_terms(s, t, 'lt') if (V.isnum(s) or V.isnum(t) or s.op not in ('str',)) else V.strless(s, t), p, q)

    def strless(self, op, x, y):
        if op == '<':
            return V.lift(lambda s, t: V.strless(s, t), x, y)
        if op == '>':
            return V.lift(lambda s, t: V.strless(t, s), x, y)
        if op == '<=':
            return NOT(V.lift(lambda s, t: V.strless(t, s), x, y))
        return NOT(V.lift(lambda s, t: V.strless(s, t), x, y))

    def untie(self, r, v, S):
        rv = self.load(r, S) if isinstance(r, (Loc, Choice)) else r
        if isinstance(rv, Rec):
            for k, x in rv.f.items():
                l = self.unaddr(x) if isinstance(x, DD) else None
                if l is not None:
                    self.store(l, getf(v, k, None), S)
            return rv
        return self.unk('tuple=')

    def eigen_idx(self, a, e, S, F):
        loc = self.go(a[0], S, F)
        idx = [self.ev(x, S, F) for x in a[1:]]
        if len(idx) == 1:
            st = ('mk0', norm(idx[0]))
        if isinstance(loc, (Loc, Choice)):
            loc = self.resolve(loc, S)
            key = norm(idx[0]) if len(idx) == 1 else norm(Rec('#ij', None, {'i': idx[0], 'j': idx[1]}))
            return loc / ('mv', key, tyid({'k': 'float', 'w': 64}))
        key = norm(idx[0]) if len(idx) == 1 else norm(Rec('#ij', None, {'i': idx[0], 'j': idx[1]}))
        return mget(loc, key, DBLT) if isinstance(loc, DD) else self.unk('eigen')

    # ---------------------------------------------------------- library functions
    def lib_call(self, f, e, S, F):
        name = strip(f['n'])
        a = e.get('a', [])
        base = name.split('::')[-1]
        h = getattr(self, 'f_' + base, None)
        if name.startswith('std::') or '::' not in name or name.startswith('boost::'):
            if base in ('sqrt', 'fabs', 'abs', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'atan2', 'exp', 'log', 'log10', 'pow', 'floor', 'ceil', 'trunc',
                        'round', 'hypot', 'isnan', 'isfinite', 'copysign', 'fmod', 'fmax', 'fmin', 'sqrtf', 'lround', 'llround', 'rint', 'signbit', 'isinf', 'cbrt'):
                vals = [self.ev(x, S, F) for x in a]
                return self.math(base, vals, e, S, F)
            if h is not None:
                return h(a, e, S, F)
        if base in ('__builtin_nanf', '__builtin_nan', 'quiet_NaN'):
            return L(T('nan'))
        if base in ('__builtin_inf', '__builtin_huge_val', 'infinity'):
            return L(T('inf'))
        if base in ('printf', 'fprintf', 'puts', 'fclose', 'fflush', 'srand'):
            for x in a:
                self.go(x, S, F)
            return D(0)
        args = [self.arg(x, S, F) for x in a]
        vals = [x[1] if x[0] == 'v' else self.load(x[1], S) for x in args]
        t = T('lib:' + base, *[norm(self.shown(v, S)) for v in vals])
        pts = f.get('pt', [])
        for i, x in enumerate(args):
            if x[0] == 'l' and i < len(pts) and pts[i].get('ref') and not pts[i].get('const') and not pts[i].get('rv'):
                self.store(x[1], typed('post', self.loctype(x[1]) or self.noref(pts[i]), t, i), S)
        self.escape(vals, a if base not in READERS else None, t, S)
        rt = self.noref(e.get('t', {}))
        if rt.get('k') == 'void':
            return None
        return fromterm(T('lib:' + base, *t.args, isint=rt.get('k') in ('int', 'bool', 'enum'), dom=(0, 1) if rt.get('k') == 'bool' else None), rt)

    def shown(self, v, S):
        """argument of an unmodelled function without the identity of local containers"""
        if isinstance(v, Rec) and v.ty == '#bi':
            return Rec('#bi', None, {})
        if isinstance(v, Rec) and v.ty == '#it':
            c = getf(v, 'c')
            l = self.unaddr(c) if isinstance(c, DD) and c.var is None else None
            if isinstance(l, Loc):
                return setf(v, 'c', norm(self.load(l, S)))
        return v

    def escape(self, vals, a, t, S):
        """an unmodelled function may write through the inserters and iterators it is given"""
        seen = set()
        for i, v in enumerate(vals):
            if isinstance(v, DD) and v.var is None and v.term in self.lams:
                for c in self.lams[v.term][1].values():
                    if isinstance(c, Ref) and isinstance(c.loc, Loc) and self.loctype(c.loc) and not self.loctype(c.loc).get('const'):
                        self.store(c.loc, typed('post', self.loctype(c.loc), t, i), S)
                continue
            if not isinstance(v, Rec) or v.ty not in ('#bi', '#it'):
                continue
            if v.ty == '#it' and (a is None or 'const' in json.dumps((a[i] if i < len(a) else {}).get('t') or {})):
                continue
            c = getf(v, 'c')
            if not (isinstance(c, DD) and c.var is None) or c.term.key in seen:
                continue
            seen.add(c.term.key)
            l = self.unaddr(c)
            if isinstance(l, Loc) and self.loctype(l):
                self.store(l, typed('post', self.loctype(l), t, i), S)

    def math(self, base, vals, e, S, F):
        if any(not isinstance(v, DD) for v in vals):
            return self.unk('math')
        if base == 'abs':
            base = 'fabs'
        if base == 'sqrtf':
            base = 'sqrt'
        if base in ('lround', 'llround', 'rint'):
            base = 'round'
        if base == 'fmax':
            return V.vmax(*vals)
        if base == 'fmin':
            return V.vmin(*vals)
        if base == 'copysign':
            return V.copysign(*vals)
        if base == 'signbit':
            return cmpd(vals[0], D(0), 'lt')
        if base in V.MATH:
            return V.MATH[base](*vals)
        return V.lift(lambda *ts: L(T(base, *ts)), *vals)

    def f_epsilon(self, a, e, S, F):
        t = e['t']
        from fractions import Fraction
        return L(const(Fraction(1, 2 ** 52) if t.get('w', 64) == 64 else Fraction(1, 2 ** 23)))

    def f_max(self, a, e, S, F):
        if not a:
            return self.limit(e['t'], True)
        if len(a) == 1:
            v = self.ev(a[0], S, F)
            return self.reduce_il(v, V.vmax)
        x, y = self.ev(a[0], S, F), self.ev(a[1], S, F)
        if len(a) == 3:
            fv = self.ev(a[2], S, F)
            return ite(self.callb(fv, [('v', x), ('v', y)], S, F), y, x)
        if isinstance(x, DD) and isinstance(y, DD):
            return V.vmax(x, y)
        return ite(self.lessv(x, y, a[0]['t'], S, F), y, x)

    def f_min(self, a, e, S, F):
        if not a:
            return self.limit(e['t'], False)
        if len(a) == 1:
            v = self.ev(a[0], S, F)
            return self.reduce_il(v, V.vmin)
        x, y = self.ev(a[0], S, F), self.ev(a[1], S, F)
        if len(a) == 3:
            fv = self.ev(a[2], S, F)
            return ite(self.callb(fv, [('v', y), ('v', x)], S, F), y, x)
        if isinstance(x, DD) and isinstance(y, DD):
            return V.vmin(x, y)
        return ite(self.lessv(y, x, a[0]['t'], S, F), y, x)

    def reduce_il(self, v, f):
        if isinstance(v, DD) and v.var is None and v.term.op == 'vec' and v.term.args:
            r = _cl(v.term.args[0])
            for x in v.term.args[1:]:
                r = f(r, _cl(x))
            return r
        return self.unk('minmax')

    def f_clamp(self, a, e, S, F):
        x, lo, hi = [self.ev(q, S, F) for q in a[:3]]
        return V.vmin(V.vmax(x, lo), hi)

    def limit(self, t, mx):
        if t.get('k') == 'float':
            return L(T('fltmax%d' % t.get('w', 64))) if mx else L(T('fltmin%d' % t.get('w', 64)))
        w = t.get('w', 32)
        if t.get('u'):
            return D(2 ** w - 1 if mx else 0)
        return D(2 ** (w - 1) - 1 if mx else -2 ** (w - 1))

    def f_lowest(self, a, e, S, F):
        t = e['t']
        if t.get('k') == 'float':
            return neg(self.limit(t, True))
        return self.limit(t, False)

    def f_move(self, a, e, S, F):
        return self.go(a[0], S, F)

    f_forward = f_move
    f_as_const = f_move
    f_ref = f_move
    f_cref = f_move

    def f_swap(self, a, e, S, F):
        x, y = self.loc_of(a[0], S, F), self.loc_of(a[1], S, F)
        vx, vy = self.load(x, S), self.load(y, S)
        self.store(x, vy, S)
        self.store(y, vx, S)
        return None

    def f_make_pair(self, a, e, S, F):
        t = self.noref(e['t'])
        key = reckey(t)
        TYPES.setdefault(key, t)
        vals = [self.ev(x, S, F) for x in a]
        return Rec(key, None, {'first': vals[0], 'second': vals[1]})

    def f_make_tuple(self, a, e, S, F):
        t = self.noref(e['t'])
        TYPES.setdefault(reckey(t), t)
        return Rec(reckey(t), None, {str(i): self.ev(x, S, F) for i, x in enumerate(a)})

    def f_tie(self, a, e, S, F):
        t = self.noref(e['t'])
        TYPES.setdefault(reckey(t), t)
        return Rec(reckey(t), None, {str(i): self.addr(self.loc_of(x, S, F)) for i, x in enumerate(a)})

    def f_get(self, a, e, S, F):
        r = self.go(a[0], S, F)
        i = None
        for x in e['f'].get('ta', []):
            if isinstance(x, int):
                i = x
        if isinstance(i, int) and isinstance(r, (Loc, Choice)):
            t = self.noref(a[0]['t'])
            fs = list(libfields(t) or {})
            if i < len(fs):
                return r / self.fstep(reckey(t), fs[i])
        return self.unk('get', ty=self.noref(e['t']))

    def f_make_shared(self, a, e, S, F):
        t = self.noref(e['t'])
        ety = (t.get('ta') or [{}])[0]
        return L(T('box', norm(self.construct(ety, a, S, F, e))))

    f_make_unique = f_make_shared

    def f_begin(self, a, e, S, F):
        return self.begin(self.loc_of(a[0], S, F), S)

    def f_end(self, a, e, S, F):
        return self.end(self.loc_of(a[0], S, F), S)

    f_cbegin = f_begin
    f_cend = f_end

    def f_distance(self, a, e, S, F):
        x, y = self.ev(a[0], S, F), self.ev(a[1], S, F)
        return sub(getf(y, 'i', INTT), getf(x, 'i', INTT))

    def f_next(self, a, e, S, F):
        x = self.ev(a[0], S, F)
        n = self.ev(a[1], S, F) if len(a) > 1 else D(1)
        return setf(x, 'i', add(getf(x, 'i', INTT), n))

    def f_prev(self, a, e, S, F):
        x = self.ev(a[0], S, F)
        n = self.ev(a[1], S, F) if len(a) > 1 else D(1)
        return setf(x, 'i', sub(getf(x, 'i', INTT), n))

    def f_advance(self, a, e, S, F):
        l = self.loc_of(a[0], S, F)
        x = self.load(l, S)
        self.store(l, setf(x, 'i', add(getf(x, 'i', INTT), self.ev(a[1], S, F))), S)
        return None

    def f_back_inserter(self, a, e, S, F):
        return Rec('#bi', None, {'c': self.addr(self.loc_of(a[0], S, F))})

    def f_inserter(self, a, e, S, F):
        l = self.loc_of(a[0], S, F)
        self.ev(a[1], S, F)
        return Rec('#bi', None, {'c': self.addr(l)})

    # ----- algorithms over a range: one symbolic iteration through the loop machinery
    def over(self, bexp, eexp, S, F, body):
        """run body(X, elemloc, index) for each element of [b,e) as a loop"""
        b, en = self.ev(bexp, S, F), self.ev(eexp, S, F)
        return self.over_it(b, en, S, F, body)

    def over_it(self, b, en, S, F, body):
        cl = self.unaddr(getf(b, 'c')) if isinstance(b, Rec) and b.ty in ('#it', '#rit') else None
        if cl is None:
            return False
        ct = self.loctype(cl) if isinstance(cl, Loc) else None
        ety = elem_type(ct) if ct and ct.get('k') == 'rec' else {'k': 'other'}
        i0, n = getf(b, 'i', INTT), getf(en, 'i', INTT)
        root = self.newroot('rf', INTT)
        S.env[root] = i0
        sz = size(self.load(cl, S)) if b.ty == '#rit' else None

        def stmt(X, G):
            i = X.env[root]
            if b.ty == '#rit':
                i = sub(sub(sz, D(1)), i)
            body(X, cl / ('i', i, tyid(ety)), i)
            return X
        G = Frame(F.fn, F.this, F, F.depth, tu=F.tu)
        S2 = self.loop(S, G, lambda X: lt(X.env[root], n), {'k': 'py', 'fn': stmt},
                       lambda X: X.env.__setitem__(root, add(X.env[root], D(1))) or self.logroot(root), {'k': 'py'}, None)
        if S2 is not None and S2 is not S:
            S.env = S2.env
            S.pc = S2.pc
        return True

    def x_py(self, s, S, F):
        return s['fn'](S, F)

    def f_accumulate(self, a, e, S, F):
        init = self.ev(a[2], S, F)
        it = self.noref(a[2]['t'])
        fv = self.ev(a[3], S, F) if len(a) > 3 else None
        acc = self.tmp(init, S, it)

        def body(X, el, i):
            old = self.load(acc, X)
            if fv is None:
                ev_ = self.load(el, X)
                nv = add(old, ev_) if isinstance(old, DD) and isinstance(ev_, DD) else self.unk('accrec')
                if it.get('k') == 'int' and not all(t.isint for t in leaves(ev_)):
                    nv = V.MATH['trunc'](nv)
            else:
                nv = self.callx(fv, [('v', old), ('l', el)], X, F)
                et_ = self.lamret(fv)
                nv = self.numconv(nv, et_, it)
            self.store(acc, nv, X)
        if not self.over(a[0], a[1], S, F, body):
            return self.unk('accumulate', ty=it)
        return self.load(acc, S)

    def lamret(self, fv):
        if isinstance(fv, DD) and fv.var is None and fv.term in self.lams:
            return self.lams[fv.term][0].get('ret')
        return None

    def f_for_each(self, a, e, S, F):
        fv = self.ev(a[2], S, F)
        if not self.over(a[0], a[1], S, F, lambda X, el, i: self.callv(fv, [('l', el)], X, F)):
            return self.unk('for_each')
        return fv

    def emit(self, dst, X, v):
        """write through an output iterator"""
        l = self.unaddr(getf(dst, 'c'))
        t = self.loctype(l) if isinstance(l, Loc) else None
        c = self.load(l, X)
        if t and t.get('n') in (SETS | MAPS):
            self.store(l, self.insert1(t, c, v), X)
        else:
            self.store(l, cat(c, vec(v)), X)

    def f_copy_if(self, a, e, S, F):
        dst = self.ev(a[2], S, F)
        fv = self.ev(a[3], S, F)
        if not (isinstance(dst, Rec) and dst.ty == '#bi'):
            return self.unk('copy_if')

        def body(X, el, i):
            c = self.callb(fv, [('l', el)], X, F)
            Y = St(dict(X.env), AND(X.pc, c), X.ctx)
            self.emit(dst, Y, self.load(el, Y))
            X.env = self.merge(c, Y.env, X.env)
        self.over(a[0], a[1], S, F, body)
        return dst

    def f_copy(self, a, e, S, F):
        dst = self.ev(a[2], S, F)
        if not (isinstance(dst, Rec) and dst.ty == '#bi'):
            return self.unk('copy')
        self.over(a[0], a[1], S, F, lambda X, el, i: self.emit(dst, X, self.load(el, X)))
        return dst

    def f_transform(self, a, e, S, F):
        dst = self.ev(a[2], S, F)
        fv = self.ev(a[3], S, F)
        if isinstance(dst, Rec) and dst.ty == '#bi':
            self.over(a[0], a[1], S, F, lambda X, el, i: self.emit(dst, X, self.callx(fv, [('l', el)], X, F)))
            return dst
        cl = self.unaddr(getf(dst, 'c')) if isinstance(dst, Rec) and dst.ty == '#it' else None
        if cl is None:
            return self.unk('transform')
        d0 = getf(dst, 'i', INTT)
        b = self.ev(a[0], S, F)
        b0 = getf(b, 'i', INTT)
        self.over(a[0], a[1], S, F, lambda X, el, i: self.store(cl / ('i', add(sub(i, b0), d0), ''), self.callx(fv, [('l', el)], X, F), X))
        return dst

    def quant(self, a, S, F, mode):
        fv = self.ev(a[2], S, F)
        fl = self.tmp(FALSE, S, BOOLT)

        def body(X, el, i):
            c = self.callb(fv, [('l', el)], X, F)
            if mode == 'all':
                c = NOT(c)
            self.store(fl, OR(self.load(fl, X), c), X)
        if not self.over(a[0], a[1], S, F, body):
            return self.unk_bool('quant')
        r = asbool(self.load(fl, S))
        return NOT(r) if mode in ('all', 'none') else r

    def f_any_of(self, a, e, S, F):
        return self.quant(a, S, F, 'any')

    def f_all_of(self, a, e, S, F):
        return self.quant(a, S, F, 'all')

    def f_none_of(self, a, e, S, F):
        return self.quant(a, S, F, 'none')

    def f_count_if(self, a, e, S, F):
        fv = self.ev(a[2], S, F)
        return self.counting(a, S, F, lambda X, el: self.callb(fv, [('l', el)], X, F))

    def f_count(self, a, e, S, F):
        v = self.ev(a[2], S, F)
        return self.counting(a, S, F, lambda X, el: self.eqv(self.load(el, X), v, a[2]['t'], X, F))

    def counting(self, a, S, F, pred):
        n = self.tmp(D(0), S, INTT)

        def body(X, el, i):
            c = pred(X, el)
            o = self.load(n, X)
            self.store(n, ite(c, add(o, D(1)), o), X)
        if not self.over(a[0], a[1], S, F, body):
            return self.unk('count')
        return self.load(n, S)

    def eqv(self, x, y, t, S, F):
        """operator== on two values of type t, using a repository operator when there is one"""
        t = self.noref(t)
        if t.get('k') == 'rec' and reckey(t) in RECORDS:
            for p in self.progs:
                rn = RECORDS[reckey(t)]['n'] if 'n' in RECORDS[reckey(t)] else reckey(t)
                for fn in p.byname.get(rn + '::operator==', []):
                    if fn.get('body'):
                        r = self.invoke(fn, [('v', y)], self.tmp(x, S, t), S, F)
                        return self.tobool(self.load(r, S) if isinstance(r, (Loc, Choice)) else r)
        return self.equal(x, y)

    def lessv(self, x, y, t, S, F):
        t = self.noref(t)
        if t.get('k') == 'rec' and reckey(t) in RECORDS:
            rn = RECORDS[reckey(t)].get('n') or reckey(t)
            for p in self.progs:
                for fn in p.byname.get(rn + '::operator<', []):
                    if fn.get('body'):
                        r = self.invoke(fn, [('v', y)], self.tmp(x, S, t), S, F)
                        return self.tobool(r)
            return self.unk_bool('noless')
        if isinstance(x, Rec) and isinstance(y, Rec):
            return self.lexless(x, y)
        return self.compare('<', x, y)

    def search(self, a, S, F, pred):
        """index of the first element satisfying pred, else the end"""
        b, en = self.ev(a[0], S, F), self.ev(a[1], S, F)
        cl = self.unaddr(getf(b, 'c')) if isinstance(b, Rec) and b.ty == '#it' else None
        if cl is None:
            return self.unk('find')
        ct = self.loctype(cl) if isinstance(cl, Loc) else None
        ety = elem_type(ct) if ct and ct.get('k') == 'rec' else {'k': 'other'}
        i0, n = getf(b, 'i', INTT), getf(en, 'i', INTT)
        k = fresh('fv')
        X = St(dict(S.env), TRUE, S.abs())
        c = pred(X, cl / ('i', add(i0, L(k)), tyid(ety)))
        r = V.mkbind('first', (sub(n, i0),), (c,), (k,))
        return Rec('#it', None, {'c': getf(b, 'c'), 'i': add(i0, r)})

    def f_find_if(self, a, e, S, F):
        fv = self.ev(a[2], S, F)
        return self.search(a, S, F, lambda X, el: self.callb(fv, [('l', el)], X, F))

    def f_find_if_not(self, a, e, S, F):
        fv = self.ev(a[2], S, F)
        return self.search(a, S, F, lambda X, el: NOT(self.callb(fv, [('l', el)], X, F)))

    def f_find(self, a, e, S, F):
        v = self.ev(a[2], S, F)
        return self.search(a, S, F, lambda X, el: self.eqv(self.load(el, X), v, a[2]['t'], X, F))

    def f_remove_if(self, a, e, S, F):
        fv = self.ev(a[2], S, F)
        b = self.ev(a[0], S, F)
        cl = self.unaddr(getf(b, 'c')) if isinstance(b, Rec) else None
        tmp = self.tmp(L(EMPTY), S, self.loctype(cl) if isinstance(cl, Loc) else None)

        def body(X, el, i):
            c = NOT(self.callb(fv, [('l', el)], X, F))
            Y = St(dict(X.env), AND(X.pc, c), X.ctx)
            self.store(tmp, cat(self.load(tmp, Y), vec(self.load(el, Y))), Y)
            X.env = self.merge(c, Y.env, X.env)
        if cl is None or not self.over(a[0], a[1], S, F, body):
            return self.unk('remove_if')
        return Rec('#it', None, {'c': getf(b, 'c'), 'i': L(T('removed', norm(self.load(tmp, S)), isint=True, dom=(0, None)))})

    def cmpfun(self, fexp, ety, S, F, fv=None):
        """comparator as a diagram over the symbolic elements ca, cb"""
        A, B = fromterm(T('ca', isint=ety.get('k') in ('int', 'bool', 'enum')), ety), fromterm(T('cb', isint=ety.get('k') in ('int', 'bool', 'enum')), ety)
        X = St(dict(S.env), TRUE, TRUE)
        if fexp is None and fv is None:
            if ety.get('k') == 'rec' and reckey(ety) in RECORDS:
                rn = RECORDS[reckey(ety)].get('n') or reckey(ety)
                for p in self.progs:
                    for fn in p.byname.get(rn + '::operator<', []):
                        if fn.get('body'):
                            r = self.invoke(fn, [('v', B)], self.tmp(A, X, ety), X, F)
                            return self.tobool(r)
                return self.unk_bool('noless')
            if isinstance(A, Rec):
                return self.lexless(A, B)
            return lt(A, B)
        fv = fv if fv is not None else self.ev(fexp, S, F)
        if isinstance(fv, DD) and fv.var is None and fv.term.op.startswith('lib:ctor:std::greater'):
            return lt(B, A)
        if isinstance(fv, DD) and fv.var is None and fv.term.op.startswith('lib:ctor:std::less'):
            return lt(A, B)
        return self.callb(fv, [('l', self.tmp(A, X, ety)), ('l', self.tmp(B, X, ety))], X, F)

    def rng(self, a, S, F):
        b, en = self.ev(a[0], S, F), self.ev(a[1], S, F)
        cl = self.unaddr(getf(b, 'c')) if isinstance(b, Rec) and b.ty in ('#it', '#rit') else None
        ct = self.loctype(cl) if isinstance(cl, Loc) else None
        ety = elem_type(ct) if ct and ct.get('k') == 'rec' else {'k': 'other'}
        return b, en, cl, ety

    def f_sort(self, a, e, S, F):
        b, en, cl, ety = self.rng(a, S, F)
        if cl is None:
            return self.unk('sort')
        c = self.cmpfun(a[2] if len(a) > 2 else None, ety, S, F)
        if b.ty == '#rit':
            c = self.swapab(c, ety)
        v = self.load(cl, S)
        i0, n = getf(b, 'i', INTT), getf(en, 'i', INTT)
        if i0 is D(0) and (n is size(v)):
            self.store(cl, vmap(v, lambda t: self.sorted(t, c, ety)), S)
        else:
            mid = V.drop(V.take(v, n), i0)
            self.store(cl, V.cat(V.cat(V.take(v, i0), vmap(mid, lambda t: self.sorted(t, c, ety))), V.drop(v, n)), S)
        return None

    f_stable_sort = f_sort

    def swapab(self, c, ety):
        isint = ety.get('k') in ('int', 'bool', 'enum')
        A, B = T('ca', isint=isint), T('cb', isint=isint)
        tmp = T('fv', -1, isint=isint)
        d1 = self.replace(c, A, tmp)
        d2 = self.replace(d1, B, A)
        return self.replace(d2, tmp, B)

    def replace(self, c, x, y):
        marks = fresh('fp', isint=x.isint, dom=None)
        return replace_term(c, {x: y})

    def f_partial_sort_copy(self, a, e, S, F):
        b, en, cl, ety = self.rng(a[:2], S, F)
        d, dn = self.ev(a[2], S, F), self.ev(a[3], S, F)
        dl = self.unaddr(getf(d, 'c')) if isinstance(d, Rec) else None
        if cl is None or dl is None:
            return self.unk('psc')
        c = self.cmpfun(a[4] if len(a) > 4 else None, ety, S, F)
        src = self.span(b, en, S)
        k = sub(getf(dn, 'i', INTT), getf(d, 'i', INTT))
        dst = self.load(dl, S)
        srt = vmap(src, lambda t: self.sorted(t, c, ety))
        m = V.vmin(k, size(srt))
        if V.INSTANCE[0] is not None and getf(d, 'i', INTT) is D(0):
            def part(t):
                els = self.few(t, ety)
                return self.replaced(els, srt, min(len(els), self.count(srt)), ety)
            if self.count(srt) is not None and all(self.few(t, ety) is not None for t in V.leaves(dst)) and k is size(dst):
                self.store(dl, vmap(dst, part), S)
                return Rec('#it', None, {'c': getf(d, 'c'), 'i': add(getf(d, 'i', INTT), m)})
        # the first min(k, n) elements of the destination are replaced
        v = vmap(m, lambda t: L(dst.term) if t is ZERO and dst.var is None else L(T('psc', norm(dst), norm(srt), t)))
        dk = isconst(k.term) if k.var is None else None
        if dk == 0:
            return d
        self.store(dl, v, S)
        return Rec('#it', None, {'c': getf(d, 'c'), 'i': add(getf(d, 'i', INTT), m)})

    def count(self, v):
        n = size(v)
        k = isconst(n.term) if n.var is None else None
        return None if k is None else int(k)

    def replaced(self, els, src, q, ety):
        return vec(*([V.nth(src, D(i), ety) for i in range(q)] + els[q:]))

    def extreme(self, a, S, F, swap):
        b, en, cl, ety = self.rng(a, S, F)
        if cl is None:
            at = self.noref(a[0]['t'])
            ety = self.noref((at.get('ta') or [{'k': 'other'}])[0])
            if not (isinstance(b, Rec) and isinstance(en, Rec)):
                return self.unk('extreme')
        c = self.cmpfun(a[2] if len(a) > 2 else None, ety, S, F)
        if swap:
            c = self.swapab(c, ety)
        i0 = getf(b, 'i', INTT)
        s = self.span(b, en, S)
        idx = vmap(s, lambda t: self.argmax(t, c, ety))
        return Rec('#it', None, {'c': getf(b, 'c'), 'i': add(i0, idx)})

    def argmax(self, t, c, ety):
        els = self.few(t, ety)
        if els is None:
            return L(T('argmax', t, c, isint=True, dom=(0, None)))
        best, idx = (els[0] if els else None), D(0)
        for i in range(1, len(els)):
            x = self.less(c, best, els[i], ety)
            best, idx = ite(x, els[i], best), ite(x, D(i), idx)
        return idx

    def few(self, t, ety):
        """the elements of a sequence of few elements, when sizes are fixed"""
        if V.INSTANCE[0] is None:
            return None
        n = V._size(t)
        k = isconst(n.term) if n.var is None else None
        if k is None or k > 3:
            return None
        return [V.nth(L(t), D(i), ety) for i in range(int(k))]

    def less(self, c, x, y, ety):
        isint = ety.get('k') in ('int', 'bool', 'enum')
        return replace_term(c, {T('ca', isint=isint): x, T('cb', isint=isint): y})

    def sorted(self, t, c, ety):
        """stable insertion sort of sequences of few elements"""
        els = self.few(t, ety)
        if els is None:
            return L(T('sorted', t, c))
        out = []
        for e in els:
            for i, o in enumerate(out):
                x = self.less(c, e, o, ety)
                e, out[i] = ite(x, o, e), ite(x, e, o)
            out.append(e)
        return vec(*out)

    def f_max_element(self, a, e, S, F):
        return self.extreme(a, S, F, False)

    def f_min_element(self, a, e, S, F):
        return self.extreme(a, S, F, True)

    def f_upper_bound(self, a, e, S, F):
        b, en, cl, ety = self.rng(a, S, F)
        if cl is None:
            return self.unk('upper_bound')
        v = self.ev(a[2], S, F)
        k = fresh('fv')
        i0 = getf(b, 'i', INTT)
        X = St(dict(S.env), TRUE, S.abs())
        el = cl / ('i', add(i0, L(k)), tyid(ety))
        if len(a) > 3:
            fv = self.ev(a[3], S, F)
            c = self.callb(fv, [('v', v), ('l', el)], X, F)
        else:
            c = lt(v, self.load(el, X))
        r = V.mkbind('first', (sub(getf(en, 'i', INTT), i0),), (c,), (k,))
        return Rec('#it', None, {'c': getf(b, 'c'), 'i': add(i0, r)})

    def f_lower_bound(self, a, e, S, F):
        b, en, cl, ety = self.rng(a, S, F)
        if cl is None:
            return self.unk('lower_bound')
        v = self.ev(a[2], S, F)
        k = fresh('fv')
        i0 = getf(b, 'i', INTT)
        X = St(dict(S.env), TRUE, S.abs())
        el = cl / ('i', add(i0, L(k)), tyid(ety))
        if len(a) > 3:
            fv = self.ev(a[3], S, F)
            c = NOT(self.callb(fv, [('l', el), ('v', v)], X, F))
        else:
            c = NOT(lt(self.load(el, X), v))
        r = V.mkbind('first', (sub(getf(en, 'i', INTT), i0),), (c,), (k,))
        return Rec('#it', None, {'c': getf(b, 'c'), 'i': add(i0, r)})

    def f_reverse(self, a, e, S, F):
        b, en, cl, ety = self.rng(a, S, F)
        if cl is None:
            return self.unk('reverse')
        v = self.load(cl, S)
        self.store(cl, vmap(v, lambda t: L(T('rev', t))), S)
        return None

    def f_fill(self, a, e, S, F):
        b, en, cl, ety = self.rng(a, S, F)
        x = self.ev(a[2], S, F)
        if cl is None:
            return self.unk('fill')
        v = self.load(cl, S)
        self.store(cl, self.fill(size(v), x), S)
        return None

    def f_apply_visitor(self, a, e, S, F):
        vis = self.ev(a[0], S, F)
        var = self.loc_of(a[1], S, F)
        vt = self.noref(a[1]['t'])
        alts = vt.get('ta') or []
        visT = self.noref(a[0]['t'])
        v = self.load(var, S)
        if not isinstance(v, DD):
            return self.unk('variant')
        ops = []
        for p in self.progs:
            for fn in p.byname.get((RECORDS.get(reckey(visT)) or {}).get('n', reckey(visT)) + '::operator()', []):
                if fn.get('body'):
                    ops.append(fn)
            if ops:
                break
        if not ops or not alts:
            return self.unk('visit')
        visl = self.go(a[0], S, F)
        visl = self.resolve(visl, S) if isinstance(visl, (Loc, Choice)) else self.tmp(vis, S, visT)
        which = vmap(v, lambda t: D([reckey(x) for x in alts].index(t.args[0])) if t.op == 'variant' and t.args[0] in [reckey(x) for x in alts]
                     else L(T('which', t, isint=True, dom=(0, len(alts) - 1))))
        res = None
        states = []
        for i, alt in enumerate(alts):
            c = keyeq(which, D(i))
            if AND(S.pc, c) is FALSE:
                continue
            fn = next((f for f in ops if reckey(self.noref(f['params'][0]['t'])) == reckey(alt)), None)
            A = St(dict(S.env), AND(S.pc, c), S.ctx)
            x = vmap(v, lambda t: _cl(t.args[1]) if t.op == 'variant' else fromterm(T('alt', t, i), alt))
            if fn is None:
                r = self.unk('novisit')
            else:
                r = self.invoke(fn, [('v', x)], visl, A, F)
                if isinstance(r, (Loc, Choice)):
                    r = self.load(r, A)
            states.append((c, A.env, r))
        if not states:
            return DDC
        c, env, res = states[-1]
        for c, e2, r in reversed(states[:-1]):
            env = self.merge(c, e2, env)
            if r is not None:
                res = ite(c, r, res)
        S.env = env
        return res


CMP = ('==', '!=', '<', '<=', '>', '>=')


def leaves_first(d):
    return next(iter(leaves(d)))


def _cl(x):
    return L(x) if isinstance(x, Term) else x


def _ismaplike(c):
    return True


def replace_term(v, m):
    """substitute terms without marks (no binder capture is possible: replaced terms are leaves)"""
    keys = set(m)
    memo = {}

    class R(V._Sub):
        def value(self, x):
            if isinstance(x, tuple):
                return tuple(self.value(y) for y in x)
            if isinstance(x, Term) and x in m:
                r = m[x]
                return L(r) if isinstance(r, Term) else r
            if not isinstance(x, (DD, Rec, Term)):
                return x
            if not contains(x, keys):
                return L(x) if isinstance(x, Term) else x
            r = self.memo.get(id(x))
            if r is not None:
                return r[1]
            r = self.dd(x) if isinstance(x, DD) else (self.rec(x) if isinstance(x, Rec) else self.term(x))
            self.memo[id(x)] = (x, r)
            return r
    return R(m, frozenset()).value(v)


def contains(x, keys):
    found = []

    def f(t):
        if t in keys:
            found.append(t)
    walk(x, f)
    return bool(found)

"""Abstract evaluation of type-resolved function bodies into value graphs.

Every function is evaluated once, on symbols, over its structured syntax tree: branches
are merged as gated values (decision diagrams), repository helpers are inlined, loops are
turned into binders over an index range (sums, collections, searches, folds).  Nothing is
executed and no path is enumerated or handed to a solver."""
import json
from values import *
import values as V

STRIPCACHE = {}


def strip(n):
    r = STRIPCACHE.get(n)
    if r is None:
        s = n
        for a, b in (('operator<<', 'operator@LL'), ('operator>>', 'operator@GG'), ('operator<=', 'operator@LE'), ('operator>=', 'operator@GE'),
                     ('operator->', 'operator@AR'), ('operator<', 'operator@LT'), ('operator>', 'operator@GT')):
            if s.endswith(a):
                s = s[:-len(a)] + b
                break
        out, d = '', 0
        for ch in s:
            if ch == '<':
                d += 1
            elif ch == '>':
                d -= 1
            elif d == 0:
                out += ch
        r = out
        for a, b in (('@LL', '<<'), ('@GG', '>>'), ('@LE', '<='), ('@GE', '>='), ('@AR', '->'), ('@LT', '<'), ('@GT', '>')):
            r = r.replace(a, b)
        STRIPCACHE[n] = r
    return r


TYTAB = {}


def tyid(t):
    if t is None:
        return ''
    s = json.dumps(t, sort_keys=True)
    TYTAB[s] = t
    return s


class Ref:
    __slots__ = ('loc',)

    def __init__(self, loc):
        self.loc = loc


class Loc:
    """storage location: root and access steps (hashable)"""
    __slots__ = ('root', 'steps')

    def __init__(self, root, steps=()):
        self.root = root
        self.steps = steps

    def __truediv__(self, s):
        return Loc(self.root, self.steps + (s,))

    def term(self):
        return T('addr', self.root, self.steps)


class Choice:
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __truediv__(self, s):
        return Choice(self.c, self.a / s, self.b / s)


class St:
    __slots__ = ('env', 'pc', 'ctx')

    def __init__(self, env, pc, ctx):
        self.env, self.pc, self.ctx = env, pc, ctx

    def fork(self, c):
        return St(dict(self.env), AND(self.pc, c), self.ctx)

    def abs(self):
        return AND(self.ctx, self.pc)


class Frame:
    n = 0

    def __init__(self, fn, this, parent=None, depth=0, tu=None):
        Frame.n += 1
        self.id = Frame.n
        self.fn = fn
        self.this = this
        self.parent = parent
        self.depth = depth
        self.tu = tu or (fn and fn.get('tu'))
        self.exits = []
        r = (fn or {}).get('ret')
        self.retref = bool(r and r.get('ref') and not r.get('rv'))
        self.stack = (parent.stack if parent else ())


class Unsupported(Exception):
    pass


def isref(t):
    return bool(t) and t.get('ref')


class Ev:
    MAXDEPTH = 40

    def __init__(self, programs, opaque=None, inline_all=False):
        self.ordcache, self.foldcache = {}, {}
        self.progs = programs
        for p in programs:
            for k, r in p.records.items():
                RECORDS.setdefault(k, r)
        self.opaque = opaque or (lambda fn: False)
        self.lams = {}
        self.logs = []
        self.rtype = {}
        self.events = []
        self.gcache = {}
        self.nroot = 0
        self.inlined = set()
        self.starts = {}    # unknown initial values of loop counters
        self.opaqued = set()
        self.unknown = {}
        self.callstack = []

    # ---------------------------------------------------------------- utilities
    def find(self, fid):
        for p in self.progs:
            f = p.functions.get(fid)
            if f is not None and (f.get('body') is not None or f.get('isctor')):
                return f
        return None

    def find_decl(self, fid):
        for p in self.progs:
            f = p.functions.get(fid)
            if f is not None:
                return f
        return None

    def unk(self, what, *args, ty=None):
        self.unknown[what] = self.unknown.get(what, 0) + 1
        t = T('?' + what, *[norm(a) for a in args])
        return fromterm(t, ty) if ty else L(t)

    def newroot(self, kind, ty=None):
        self.nroot += 1
        r = (kind, self.nroot)
        if ty:
            self.rtype[r] = ty
        return r

    def event(self, kind, ok, S, e, F, what=''):
        fr = F
        self.events.append(dict(kind=kind, ok=ok, pc=S.abs(), line=e.get('l', 0) if e else 0, fn=self.callstack[-1] if self.callstack else '', what=what,
                                stack=tuple(self.callstack)))

    # ---------------------------------------------------------------- locations
    def loctype(self, loc):
        t = self.rtype.get(loc.root)
        for s in loc.steps:
            if t is None:
                return None
            if s[0] == 'f':
                t = ftype(reckey(t), s[1]) if t.get('k') == 'rec' else None
            elif s[0] in ('i', 'mk', 'd', 'me', 'mv'):
                t = TYTAB.get(s[2]) if len(s) > 2 else None
        return t

    def load(self, loc, S):
        if isinstance(loc, Choice):
            return ite(loc.c, self.load(loc.a, S), self.load(loc.b, S))
        v = S.env.get(loc.root)
        if isinstance(v, Ref):
            l = v.loc
            for s in loc.steps:
                l = l / s
            return self.load(l, S)
        if v is None:
            return self.unk('noroot', L(T('str', str(loc.root[0]))))
        for s in loc.steps:
            v = self.get(v, s)
        return v

    def get(self, v, s):
        k = s[0]
        if k == 'f':
            return getf(v, s[1], TYTAB.get(s[2]))
        if k == 'i':
            if isinstance(v, Rec):
                return self.unk('idxrec', ty=TYTAB.get(s[2]))
            return nth(v, s[1], TYTAB.get(s[2]))
        if k == 'mk':
            ty = TYTAB.get(s[2])
            d = self.default(ty)
            return vmap(v, lambda t: ite(has(L(t), s[1]), mget(L(t), s[1], ty), d))
        if k == 'mv':
            return mget(v, s[1], TYTAB.get(s[2]))
        if k == 'me':
            ty = TYTAB[s[2]]
            TYPES.setdefault(reckey(ty), ty)
            return Rec(reckey(ty), None, {'first': s[1], 'second': mget(v, s[1], (ty.get('ta') or [None, None])[1])})
        if k == 'd':
            ty = TYTAB.get(s[2])
            if isinstance(v, Rec):
                return v
            return vmap(v, lambda t: t.args[0] if t.op == 'box' else (DDC if t is DC else typed('deref', ty, t)))
        raise Unsupported(k)

    def put(self, v, steps, val):
        if not steps:
            return val
        s = steps[0]
        k = s[0]
        if k == 'f':
            ty = s[3] if len(s) > 3 else None
            old = getf(v, s[1], TYTAB.get(s[2])) if len(steps) > 1 else None
            return setf(v, s[1], self.put(old, steps[1:], val), ty)
        if k == 'i':
            old = nth(v, s[1], TYTAB.get(s[2])) if len(steps) > 1 else None
            return upd(v, s[1], self.put(old, steps[1:], val))
        if k in ('mk', 'mv'):
            old = self.get(v, s) if len(steps) > 1 else None
            return mput(v, s[1], self.put(old, steps[1:], val))
        if k == 'me':
            nv = self.put(self.get(v, s), steps[1:], val)
            return mput(v, s[1], getf(nv, 'second', None))
        if k == 'd':
            old = self.get(v, s) if len(steps) > 1 else None
            return L(T('box', norm(self.put(old, steps[1:], val))))
        raise Unsupported(k)

    def resolve(self, loc, S):
        """follow reference roots"""
        n = 0
        while isinstance(loc, Loc):
            v = S.env.get(loc.root)
            if not isinstance(v, Ref):
                return loc
            l = v.loc
            for s in loc.steps:
                l = l / s
            loc = l
            n += 1
            if n > 50:
                raise Unsupported('refloop')
        return loc

    def store(self, loc, val, S):
        loc = self.resolve(loc, S)
        if isinstance(loc, Choice):
            a0, b0 = self.load(loc.a, S), self.load(loc.b, S)
            self.store(loc.a, ite(loc.c, val, a0), S)
            self.store(loc.b, ite(loc.c, b0, val), S)
            return
        pre = []
        for s in loc.steps:
            if s[0] in ('f', 'd'):
                pre.append(s)
            else:
                break
        for lg in self.logs:
            lg.setdefault((loc.root, tuple(x[1] if x[0] == 'f' else 'd' for x in pre)), Loc(loc.root, tuple(pre)))
        if not loc.steps:
            S.env[loc.root] = val
            return
        v = S.env.get(loc.root)
        if v is None:
            return
        S.env[loc.root] = self.put(v, loc.steps, val)

    def tmp(self, val, S, ty=None):
        r = self.newroot('t', ty)
        S.env[r] = val
        return Loc(r)

    def default(self, ty):
        """value-initialised"""
        k = ty.get('k') if ty else None
        if k in ('int', 'float', 'bool', 'enum'):
            return L(ZERO)
        if k == 'ptr' or k == 'nullptr':
            return L(T('null'))
        if k == 'rec':
            return self.construct_default(ty)
        return self.unk('default')

    def uninit(self, ty, name=''):
        return L(T('uninit', name))

    def construct_default(self, ty, name=''):
        n = ty.get('n')
        key = reckey(ty)
        TYPES.setdefault(key, ty)
        if n in CONT:
            return L(EMPTY)
        if n in PTRS:
            return L(T('null'))
        if n in ('boost::optional', 'std::optional'):
            return Rec(key, None, {'has': FALSE, 'val': DDC})
        if n == 'std::basic_string':
            return L(T('str', ''))
        lf = libfields(ty)
        if lf is not None:
            return Rec(key, None, {f: self.default(t) for f, t in lf.items()})
        r = RECORDS.get(key)
        if r is not None:
            for c in r.get('ctors', []):
                if c.get('default') and c.get('user'):
                    fn = self.find(c['id'])
                    if fn:
                        S = St({}, TRUE, TRUE)
                        return self.run_ctor(fn, [], S, None, ty)
            return self.field_inits(key, St({}, TRUE, TRUE), None, {})
        if n in ITERS:
            return Rec('#it', None, {'c': DDC, 'i': DDC})
        return L(T('lib:ctor:' + strip(n or '?')))

    def field_inits(self, key, S, F, given):
        """implicit default construction of a record: default member initialisers"""
        r = RECORDS[key]
        out = {}
        for b in r.get('bases', []):
            bk = b if isinstance(b, str) else (b.get('full') or b.get('n'))
            if bk in RECORDS:
                bt = TYPES.get(bk) or {'k': 'rec', 'n': bk}
                v = self.construct_default(bt)
                if isinstance(v, Rec):
                    out.update(v.f)
        for f in r['fields']:
            t = f['t']
            if f.get('init'):
                out[f['n']] = self.fieldinit(f['init'], t)
            elif t.get('k') == 'rec':
                out[f['n']] = self.construct_default(t)
            else:
                out[f['n']] = self.uninit(t, f['n'])
        return Rec(key, None, out)

    def ev_closed(self, e, ty=None):
        S = St({}, TRUE, TRUE)
        F = Frame(None, None)
        F.tu = None
        v = self.ev(e, S, F)
        return self.coerce(v, ty, e)

    def coerce(self, v, ty, e=None):
        return v

    # ---------------------------------------------------------------- functions
    def run(self, fn, args=None, this=None, env=None):
        """evaluate fn on symbols; returns dict(ret=, this=, params=[...])"""
        S = St(env or {}, TRUE, TRUE)
        F = None
        self.callstack = []
        rec = fn.get('rec')
        thisloc = None
        if fn.get('isctor'):
            vals = []
            for i, p in enumerate(fn['params']):
                vals.append(fromterm(T('sym', 'p%d' % i, isint=p['t'].get('k') in ('int', 'bool', 'enum'),
                                       dom=(0, 1) if p['t'].get('k') == 'bool' else ((0, None) if p['t'].get('u') else None)), self.noref(p['t'])))
            ty = {'k': 'rec', 'n': rec} if rec not in TYPES else TYPES[rec]
            v = self.run_ctor(fn, [('v', x) for x in vals], S, None, ty)
            return dict(ret=v, this=None, params=[], events=self.events)
        if fn.get('method') and not fn.get('static'):
            ty = TYPES.get(rec) or {'k': 'rec', 'n': rec}
            TYPES.setdefault(rec, ty)
            root = self.newroot('o', ty)
            S.env[root] = this if this is not None else Rec(rec, T('sym', 'this'), {})
            thisloc = Loc(root)
        argl, locs = [], []
        for i, p in enumerate(fn['params']):
            t = self.noref(p['t'])
            v = args[i] if args else fromterm(T('sym', 'p%d' % i, isint=t.get('k') in ('int', 'bool', 'enum'),
                                                dom=(0, 1) if t.get('k') == 'bool' else ((0, None) if t.get('k') == 'int' and t.get('u') else None)), t)
            root = self.newroot('a', t)
            S.env[root] = v
            locs.append(Loc(root))
            argl.append(('l', Loc(root)) if p['t'].get('ref') else ('v', v))
        v = self.invoke(fn, argl, thisloc, S, None)
        if isinstance(v, (Loc, Choice)):
            v = self.load(v, S)
        return dict(ret=v, this=self.load(thisloc, S) if thisloc else None,
                    params=[self.load(l, S) for l in locs], events=self.events, pc=S.pc)

    def noref(self, t):
        if t.get('ref'):
            t = {k: v for k, v in t.items() if k not in ('ref', 'rv')}
        return t

    def invoke(self, fn, args, this, S, F):
        """args: list of ('v', value) | ('l', Loc)"""
        G = Frame(fn, this, None, (F.depth + 1) if F else 0)
        self.inlined.add(fn['id'])
        self.callstack.append(fn['n'])
        try:
            for p, a in zip(fn['params'], args):
                root = ('v', G.id, p['id'])
                self.rtype[root] = self.noref(p['t'])
                if a[0] == 'l' and p['t'].get('ref'):
                    S.env[root] = Ref(a[1])
                elif a[0] == 'l':
                    S.env[root] = self.load(a[1], S)
                else:
                    S.env[root] = a[1]
            # missing args (default args are evaluated by the caller's AST)
            return self.run_body(fn, fn['body'], G, S, fn.get('ret'))
        finally:
            self.callstack.pop()

    def run_body(self, fn, body, G, S, rett):
        save_pc, save_ctx = S.pc, S.ctx
        S2 = St(S.env, TRUE, AND(S.ctx, S.pc))
        S2 = self.ex(body, S2, G)
        outs = []
        thrown = FALSE
        for kind, c, env, val in G.exits:
            if kind == 'return':
                outs.append((c, env, val))
            elif kind == 'throw':
                thrown = OR(thrown, c)
        if S2 is not None:
            outs.append((S2.pc, S2.env, None))
        if not outs:
            # never returns normally
            S.pc = FALSE
            return DDC
        env = outs[-1][1]
        if any(isinstance(o[2], Ref) for o in outs):
            if all(isinstance(o[2], Ref) for o in outs if o[2] is not None):
                loc = None
                for c, e2, v2 in reversed(outs):
                    if v2 is not None:
                        loc = v2.loc if loc is None or self.sameloc(loc, v2.loc) else Choice(c, v2.loc, loc)
                outs = [(c, e2, None) for c, e2, v2 in outs]
                rloc = loc
            else:
                rloc = None
                outs = [(c, e2, self.load(v2.loc, St(e2, TRUE, TRUE)) if isinstance(v2, Ref) else v2) for c, e2, v2 in outs]
        else:
            rloc = None
        val = outs[-1][2]
        vals = [o[2] for o in outs]
        nonv = [v for v in vals if v is not None]
        fill = DDC
        val = vals[-1] if vals[-1] is not None else fill
        for c, e2, v2 in reversed(outs[:-1]):
            env = self.merge(c, e2, env)
            val = ite(c, v2 if v2 is not None else fill, val)
        if thrown is not FALSE:
            S.pc = AND(save_pc, NOT(thrown))
        # drop callee locals
        gid = G.id
        S.env = {k: v for k, v in env.items() if not (k[0] == 'v' and k[1] == gid)}
        return rloc if rloc is not None else val

    def merge(self, c, a, b):
        if a is b:
            return a
        out = {}
        for k, v in a.items():
            w = b.get(k)
            if w is None:
                if k not in b:
                    continue
            if v is w:
                out[k] = v
            elif isinstance(v, Ref) or isinstance(w, Ref):
                if isinstance(v, Ref) and isinstance(w, Ref):
                    if self.sameloc(v.loc, w.loc):
                        out[k] = v
                    else:
                        out[k] = Ref(Choice(c, v.loc, w.loc))
            else:
                out[k] = ite(c, v, w)
        return out

    def sameloc(self, a, b):
        if isinstance(a, Loc) and isinstance(b, Loc):
            return a.root == b.root and a.steps == b.steps
        return a is b

    def run_ctor(self, fn, args, S, F, ty, this=None):
        rec = fn.get('rec') or reckey(ty)
        key = rec if rec in RECORDS else reckey(ty)
        own = this is None
        if own:
            root = self.newroot('o', ty)
            S.env[root] = Rec(key, None, {})
            this = Loc(root)
        G = Frame(fn, this, None, (F.depth + 1) if F else 0)
        self.inlined.add(fn['id'])
        self.callstack.append(fn['n'])
        try:
            if fn.get('implicit') and fn.get('copyctor') and args:
                v = args[0][1] if args[0][0] == 'v' else self.load(args[0][1], S)
                self.store(this, v, S)
            else:
                for p, a in zip(fn['params'], args):
                    r = ('v', G.id, p['id'])
                    self.rtype[r] = self.noref(p['t'])
                    if a[0] == 'l' and p['t'].get('ref'):
                        S.env[r] = Ref(a[1])
                    else:
                        S.env[r] = a[1] if a[0] == 'v' else self.load(a[1], S)
                done = set()
                for i in fn.get('inits') or []:
                    if i.get('deleg'):
                        v = self.ev(i['e'], S, G)
                        self.store(this, v, S)
                        done = set(fields(key) or {})
                    elif 'base' in i:
                        v = self.ev(i['e'], S, G)
                        bt = self.noref(i['e'].get('t') or {})
                        bk = v.ty if isinstance(v, Rec) else reckey(bt) if bt.get('k') == 'rec' else None
                        cur = self.load(this, S)
                        for n, nt in (fields(bk) or {n: None for n in (v.f if isinstance(v, Rec) else ())}).items():
                            cur = setf(cur, n, getf(v, n, nt), key)
                            done.add(n)
                        self.store(this, cur, S)
                    else:
                        e = i['e']
                        ft = ftype(key, i['field'])
                        v = self.ev(e, S, G)
                        if v is None:
                            v = self.uninit(ft, i['field'])
                        self.store(this / self.fstep(key, i['field']), self.conv(v, ft), S)
                        done.add(i['field'])
                cur = self.load(this, S)
                for f, t in (fields(key) or {}).items():
                    if f in done or (isinstance(cur, Rec) and f in cur.f):
                        continue
                    fd = next((x for x in RECORDS.get(key, {}).get('fields', []) if x['n'] == f), None)
                    if fd and fd.get('init'):
                        v = self.fieldinit(fd['init'], t)
                    elif t.get('k') == 'rec':
                        v = self.construct_default(t)
                    else:
                        v = self.uninit(t, f)
                    cur = setf(cur, f, v, key)
                self.store(this, cur, S)
                if fn.get('body'):
                    self.run_body(fn, fn['body'], G, S, None)
            v = self.load(this, S)
            if own:
                S.env.pop(this.root, None)
            return v
        finally:
            self.callstack.pop()

    def fstep(self, key, f, t=None):
        ft = ftype(key, f) or t
        return ('f', f, tyid(ft), key)

    # --------------------------------------------------------------- statements
    def ex(self, s, S, F):
        """execute statement; returns the fall-through state or None"""
        if S is None or S.pc is FALSE:
            return None
        k = s['k']
        m = getattr(self, 'x_' + k, None)
        if m is None:
            self.unk('stmt:' + k)
            self.taint_all(S)
            return S
        return m(s, S, F)

    def taint_all(self, S):
        pass

    def x_null(self, s, S, F):
        return S

    def x_block(self, s, S, F):
        for c in s['c']:
            S = self.ex(c, S, F)
            if S is None:
                return None
        return S

    def x_expr(self, s, S, F):
        self.ev(s['e'], S, F)
        return S if S.pc is not FALSE else None

    def x_label(self, s, S, F):
        return self.ex(s['s'], S, F)

    def x_decl(self, s, S, F):
        for v in s['v']:
            self.declare(v, S, F)
        return S

    def declare(self, v, S, F):
        root = ('v', F.id, v['id'])
        t = v['t']
        self.rtype[root] = self.noref(t)
        if v.get('static') and v.get('init') and (t.get('const') or v.get('constexpr')):
            S.env[root] = self.conv(self.ev(v['init'], S, F), t)
            return
        if v.get('static'):
            S.env[root] = fromterm(T('?static', v['n']), t)
            return
        if v.get('bindings'):
            if v.get('init') is not None:
                loc = self.arg(v['init'], S, F, {'ref': 1} if t.get('ref') else {})
                loc = loc[1] if loc[0] == 'l' else self.tmp(loc[1], S, self.noref(t))
            else:
                loc = self.tmp(self.unk('binding'), S)
            self.bindings(v, loc, S, F)
            return
        if 'init' not in v:
            if t.get('k') == 'rec':
                S.env[root] = self.construct_default(t)
            else:
                S.env[root] = self.uninit(t, v['n'])
            return
        if t.get('ref'):
            a = self.arg(v['init'], S, F, t)
            if a[0] == 'l':
                S.env[root] = Ref(a[1])
            else:
                S.env[root] = a[1]
            return
        x = self.ev(v['init'], S, F)
        if x is None:
            x = self.uninit(t, v['n'])
        S.env[root] = self.conv(x, t)

    def bindings(self, v, loc, S, F):
        t = self.noref(v['t'])
        key = reckey(t) if t.get('k') == 'rec' else None
        fs = list(libfields(t) or fields(key) or {}) if key else []
        for i, b in enumerate(v['bindings']):
            r = ('v', F.id, b['id'])
            if i < len(fs):
                TYPES.setdefault(key, t)
                S.env[r] = Ref(loc / self.fstep(key, fs[i]))
            else:
                S.env[r] = self.unk('binding', ty=b.get('t'))
            self.rtype[r] = self.noref(b['t']) if b.get('t') else None

    def conv(self, v, t):
        """implicit conversion at initialisation (casts are explicit in the tree)"""
        return v

    def cond(self, e, S, F):
        v = self.ev(e, S, F)
        return self.tobool(v)

    def tobool(self, v):
        if isinstance(v, Rec):
            if v.ty and 'optional' in v.ty:
                return asbool(getf(v, 'has', BOOLT))
            return self.unk_bool('boolrec', v)

        def f(t):
            if t.op in ('box', 'addr', 'lam'):
                return TRUE
            if t.op == 'null':
                return FALSE
            if t is DC:
                return DDC
            if isnum(t) or t.op in ('sym', 'sel', 'nth', 'mget', 'call', 'deref', 'eq', 'has') or t.isint:
                return cmp_zero(t, 'ne')
            return cmp_zero(t, 'ne')
        return apply(f, v)

    def unk_bool(self, what, *a):
        self.unknown[what] = self.unknown.get(what, 0) + 1
        return L0('?' + what, *[norm(x) for x in a])

    def x_if(self, s, S, F):
        if s.get('init'):
            S = self.ex(s['init'], S, F)
        if s.get('cv'):
            self.declare(s['cv'], S, F)
        c = self.cond(s['c'], S, F)
        return self.branch(c, S, F, lambda T_: self.ex(s['a'], T_, F), lambda T_: self.ex(s['b'], T_, F) if s.get('b') else T_)

    def branch(self, c, S, F, fa, fb):
        if c is TRUE:
            return fa(S)
        if c is FALSE:
            return fb(S)
        pca = AND(S.pc, c)
        pcb = AND(S.pc, NOT(c))
        A = fa(St(dict(S.env), pca, S.ctx)) if pca is not FALSE else None
        B = fb(St(dict(S.env), pcb, S.ctx)) if pcb is not FALSE else None
        if A is None:
            return B
        if B is None:
            return A
        env = self.merge(c, A.env, B.env)
        pc = S.pc if (A.pc is pca and B.pc is pcb) else OR(A.pc, B.pc)
        return St(env, pc, S.ctx)

    def x_return(self, s, S, F):
        val = None
        if s.get('e'):
            if F.retref:
                r = self.go(s['e'], S, F)
                val = Ref(self.resolve(r, S)) if isinstance(r, (Loc, Choice)) else (r if r is not None else DDC)
            else:
                val = self.ev(s['e'], S, F)
                if val is None:
                    val = DDC
        if S.pc is not FALSE:
            F.exits.append(('return', S.pc, dict(S.env), val))
        return None

    def x_break(self, s, S, F):
        F.exits.append(('break', S.pc, dict(S.env), None))
        return None

    def x_continue(self, s, S, F):
        F.exits.append(('continue', S.pc, dict(S.env), None))
        return None

    def x_try(self, s, S, F):
        n = len(F.exits)
        r = self.ex(s['b'], S, F)
        return r

    def x_switch(self, s, S, F):
        if s.get('init'):
            S = self.ex(s['init'], S, F)
        v = self.ev(s['c'], S, F)
        items = s['b'].get('c', []) if s['b']['k'] == 'block' else [s['b']]
        # flatten labels
        seq = []   # (labels, stmt)
        for it in items:
            labels = []
            while it['k'] in ('case', 'default'):
                labels.append(it.get('cv') if it['k'] == 'case' else 'default')
                it = it['s']
            seq.append((labels, it))
        allv = [l for ls, _ in seq for l in ls if l != 'default']
        save = F.exits
        F.exits = []
        anyc = FALSE
        for l in allv:
            anyc = OR(anyc, keyeq(v, D(l)))
        cur = None      # state falling through
        for labels, st in seq:
            enter = FALSE
            for l in labels:
                enter = OR(enter, NOT(anyc) if l == 'default' else keyeq(v, D(l)))
            if labels and enter is not FALSE:
                pe = AND(S.pc, enter)
                if pe is not FALSE:
                    E2 = St(dict(S.env), pe, S.ctx)
                    if cur is None:
                        cur = E2
                    else:
                        cur = St(self.merge(cur.pc, cur.env, E2.env), OR(cur.pc, pe), S.ctx)
            if cur is not None:
                cur = self.ex(st, cur, F)
        outs = []
        rest = []
        for x in F.exits:
            (outs if x[0] == 'break' else rest).append(x)
        F.exits = save + rest
        hasdef = any('default' in ls for ls, _ in seq)
        states = [(c, e) for _, c, e, _ in outs]
        if cur is not None:
            states.append((cur.pc, cur.env))
        if not hasdef:
            pn = AND(S.pc, NOT(anyc))
            if pn is not FALSE:
                states.append((pn, S.env))
        return self.joinall(states, S.ctx)

    def joinall(self, states, ctx):
        if not states:
            return None
        pc, env = states[-1]
        for c, e in reversed(states[:-1]):
            env = self.merge(c, e, env)
            pc = OR(pc, c)
        return St(env, pc, ctx)

    # -------------------------------------------------------------------- loops
    def x_while(self, s, S, F):
        return self.loop(S, F, (lambda X: self.cond(s['c'], X, F)), s['b'], None, s)

    def x_do(self, s, S, F):
        # first iteration, then a while loop
        save = F.exits
        F.exits = []
        A = self.ex(s['b'], S, F)
        brk = [x for x in F.exits if x[0] == 'break']
        cont = [x for x in F.exits if x[0] == 'continue']
        F.exits = save + [x for x in F.exits if x[0] not in ('break', 'continue')]
        st = [(x[1], x[2]) for x in cont]
        if A is not None:
            st.append((A.pc, A.env))
        A = self.joinall(st, S.ctx)
        if A is not None:
            A = self.loop(A, F, (lambda X: self.cond(s['c'], X, F)), s['b'], None, s)
        st = [(x[1], x[2]) for x in brk]
        if A is not None:
            st.append((A.pc, A.env))
        return self.joinall(st, S.ctx)

    def x_for(self, s, S, F):
        if s.get('init'):
            S = self.ex(s['init'], S, F)
            if S is None:
                return None
        cond = (lambda X: self.cond(s['c'], X, F)) if s.get('c') else (lambda X: TRUE)
        inc = (lambda X: self.ev(s['inc'], X, F)) if s.get('inc') else None
        x = self.start(s, S, F) if inc else None
        if x is not None and x.var is None:
            self.starts[x.term.key] = x.term
        if self.instance and inc and x is not None:
            R = self.counted(s, S, F, cond)
            if R is not None:
                return R[0]
        return self.loop(S, F, cond, s['b'], inc, s)

    def start(self, s, S, F):
        """unknown initial value x >= 0 of the counter in for (T i = x; ...; i++)"""
        inc, ini = s['inc'], s.get('init') or {}
        if inc.get('k') != 'un' or inc.get('op') != '++' or ini.get('k') != 'decl' or len(ini.get('v', ())) != 1:
            return None
        var = ini['v'][0]
        if inc['e'].get('k') != 'var' or inc['e'].get('id') != var['id']:
            return None
        if var['t'].get('ref') or var['t'].get('k') != 'int':
            return None
        root = ('v', F.id, var['id'])
        x = S.env.get(root)
        if not isinstance(x, DD) or not var['t'].get('u') and lt(x, D(0)) is not FALSE or x.var is None and isconst(x.term) is not None:
            return None
        return x

    def counted(self, s, S, F, cond, limit=8):
        """for (T i = x; i < n; i++) with known n: every i < n in turn, where x <= i"""
        root = ('v', F.id, s['init']['v'][0]['id'])
        x = S.env[root]
        nev, save = len(self.events), F.exits
        X, outs, brk, k = St(dict(S.env), S.pc, S.ctx), [], [], 0
        while X is not None:
            P = St(dict(X.env), X.pc, X.ctx)
            P.env[root] = D(k)
            F.exits = []
            c = cond(P)
            if c is not TRUE and c is not FALSE:
                c = care(c, P.abs())
            if c is FALSE:
                break
            g = care(NOT(lt(D(k), x)), X.abs())
            if k == limit or F.exits or k == 0 and c is not TRUE:
                k = None
                break
            if c is not TRUE:
                brk.append((AND(X.pc, NOT(c)), dict(X.env)))
            st = [(AND(AND(X.pc, c), NOT(g)), dict(X.env))]
            Y = St(P.env, AND(AND(X.pc, c), g), X.ctx)
            log = {}
            self.logs.append(log)
            Y = self.ex(s['b'], Y, F)
            self.logs.pop()
            if any(l.root == root for l in log.values()):
                k = None
                break
            outs += [e for e in F.exits if e[0] not in ('break', 'continue')]
            brk += [(e[1], e[2]) for e in F.exits if e[0] == 'break']
            st += [(e[1], e[2]) for e in F.exits if e[0] == 'continue']
            if Y is not None:
                st.append((Y.pc, Y.env))
            for _, e in st:
                e[root] = x
            X = self.joinall(st, S.ctx)
            k += 1
        if k is None:
            del self.events[nev:]
            F.exits = save
            return None
        F.exits = save + outs
        if X is not None:
            brk.append((X.pc, X.env))
        return (self.joinall(brk, S.ctx),)

    def x_rfor(self, s, S, F):
        if s.get('init'):
            S = self.ex(s['init'], S, F)
        a = self.arg(s['range'], S, F, {'ref': 1})
        loc = a[1] if a[0] == 'l' else self.tmp(a[1], S, self.noref(s['rt']))
        loc = self.resolve(loc, S)
        rt = self.noref(s['rt'])
        et = elem_type(rt) if rt.get('k') == 'rec' else (rt.get('to') or {'k': 'other'})
        c = self.load(loc, S)
        if isinstance(c, Rec):
            c = self.unk('rforrec', c)
        n = size(c)
        root = self.newroot('rf', INTT)
        S.env[root] = D(0)
        var = s['var']

        def pre(X):
            i = self.load(Loc(root), X)
            el = loc / ('i', i, tyid(et))
            vr = ('v', F.id, var['id'])
            self.rtype[vr] = self.noref(var['t'])
            if var.get('bindings'):
                self.bindings(dict(var, t=et), el if var['t'].get('ref') else self.tmp(self.load(el, X), X, et), X, F)
            elif var['t'].get('ref'):
                X.env[vr] = Ref(el)
            else:
                X.env[vr] = self.load(el, X)

        return self.loop(S, F, lambda X: lt(X.env[root], n), s['b'],
                         lambda X: X.env.__setitem__(root, add(X.env[root], D(1))) or self.logroot(root), s, pre)

    def logroot(self, root):
        for lg in self.logs:
            lg.setdefault((root, ()), Loc(root))

    def philike(self, v, ty, comps, loc, S):
        """replace value v at loc by fresh loop symbols"""
        if isinstance(v, Ref):
            return v
        if isinstance(v, Rec):
            if v.ty == '#it':
                i = getf(v, 'i', INTT)
                f = fresh('fp', isint=True, dom=None)
                comps.append((f, loc / ('f', 'i', tyid(INTT), '#it'), i))
                return Rec('#it', v.base, dict(v.f, i=L(f)))
            fs = fields(v.ty)
            if fs:
                return Rec(v.ty, None, {n: self.philike(getf(v, n, t), t, comps, loc / ('f', n, tyid(t), v.ty), S) for n, t in fs.items()})
            f = fresh('fp', isint=False, dom=None)
            comps.append((f, loc, v))
            return fromterm(f, TYPES.get(v.ty) or {'k': 'other'})
        k = ty.get('k') if ty else None
        if ty is not None and k == 'rec' and reckey(ty) in RECORDS and isinstance(v, DD):
            fs = fields(reckey(ty))
            return Rec(reckey(ty), None, {n: self.philike(getf(v, n, t), t, comps, loc / ('f', n, tyid(t), reckey(ty)), S) for n, t in fs.items()})
        isint = k in ('int', 'bool', 'enum')
        dom = (0, 1) if k == 'bool' else ((0, None) if k == 'int' and ty.get('u') else None)
        f = fresh('fp', isint=isint, dom=dom)
        comps.append((f, loc, v))
        return L(f)

    def loop(self, S, F, cond, body, inc, s, pre=None):
        """generic loop: find the written locations, evaluate one symbolic iteration,
        classify every carried value"""
        if self.instance:
            return self.direct(S, F, cond, body, inc, pre, s)
        known = {}
        for rnd in range(6):
            log = {}
            X = St(dict(S.env), TRUE, S.abs())
            comps = []
            for key, loc in known.items():
                v = self.load(loc, X)
                nv = self.philike(v, self.loctype(loc), comps, loc, X)
                X.env[loc.root] = self.put(X.env[loc.root], loc.steps, nv)
            self.logs.append(log)
            nev = len(self.events)
            save = F.exits
            F.exits = []
            c = cond(X)
            envc = dict(X.env)
            Y = None
            if c is not FALSE:
                Y = St(dict(X.env), TRUE, AND(X.ctx, c))
                if pre:
                    pre(Y)
                Y = self.ex(body, Y, F)
            exits = F.exits
            F.exits = save
            st = [(x[1], x[2]) for x in exits if x[0] == 'continue']
            if Y is not None:
                st.append((Y.pc, Y.env))
            Z = self.joinall(st, AND(X.ctx, c))
            if Z is not None and inc:
                inc(Z)
            self.logs.pop()
            new = {k: l for k, l in log.items() if l.root in S.env and not isinstance(S.env.get(l.root), Ref)}
            # shortest prefixes only
            allk = dict(known)
            allk.update(new)
            red = {}
            for (r, p), l in allk.items():
                if any(r2 == r and p2 != p and p[:len(p2)] == p2 for (r2, p2) in allk):
                    continue
                red[(r, p)] = l
            if set(red) == set(known):
                break
            del self.events[nev:]
            known = red
        else:
            self.unk('loopfix')
        for lg in self.logs:
            for k, l in known.items():
                lg.setdefault(k, l)
        exits = [x for x in exits if x[0] != 'continue']
        return self.close_loop(S, F, c, comps, known, Z, exits, s, envc)

    def direct(self, S, F, cond, body, inc, pre, s, limit=6, splits=3):
        """iterate a loop explicitly: without bound (up to limit) while its condition is decided, a few
        times where it is not; what is left is the loop itself, continued from there"""
        X = St(dict(S.env), S.pc, S.ctx)
        outs, brk = [], []
        nev, save = len(self.events), F.exits
        n = 0
        for i in range(limit + 1):
            F.exits = []
            c = cond(X)
            if c is not TRUE and c is not FALSE:
                c = care(c, X.abs())
            if c is FALSE:
                break
            if i == limit or n == splits and c is not TRUE:
                self.instance = False
                F.exits = []
                R = self.loop(X, F, cond, body, inc, s, pre)
                outs += F.exits
                if R is not None:
                    brk.append((R.pc, R.env))
                X = None
                self.instance = True
                break
            if c is not TRUE:
                n += 1
                brk.append((AND(X.pc, NOT(c)), dict(X.env)))
            Y = St(dict(X.env), AND(X.pc, c), X.ctx)
            if pre:
                pre(Y)
            Y = self.ex(body, Y, F)
            outs += [x for x in F.exits if x[0] not in ('break', 'continue')]
            brk += [(x[1], x[2]) for x in F.exits if x[0] == 'break']
            st = [(x[1], x[2]) for x in F.exits if x[0] == 'continue']
            if Y is not None:
                st.append((Y.pc, Y.env))
            X = self.joinall(st, S.ctx)
            if X is None:
                break
            if inc:
                inc(X)
        F.exits = save + outs
        if X is not None:
            brk.append((X.pc, X.env))
        return self.joinall(brk, S.ctx)

    def compval(self, env, loc):
        X = St(env, TRUE, TRUE)
        v = self.load(loc, X)
        if isinstance(v, Rec):
            return norm(v)
        return v

    def close_loop(self, S, F, c, comps, known, Z, exits, s, envc):
        phis = [x[0] for x in comps]
        inits = {f: (v if isinstance(v, DD) else norm(v)) for f, l, v in comps}
        cont = Z.pc if Z is not None else FALSE
        nexts = {}
        for f, l, v in comps:
            nexts[f] = self.compval(Z.env, l) if Z is not None else L(f)
        if c is FALSE:
            return S
        # --- find the counter
        dom = self.find_domain(c, phis, inits, nexts)
        if dom is None:
            return self.close_mu(S, F, c, comps, inits, nexts, cont, exits, envc, s)
        cnt, lo, n, other, dirn = dom
        if other is not TRUE:
            exits = [('break', NOT(other), envc, None)] + [(k, AND(cc, other), e, v) for k, cc, e, v in exits]
            cont = AND(cont, other)
        k = fresh('fv')
        kd = add(lo, L(k)) if dirn > 0 else sub(lo, L(k))
        rest = [f for f in phis if f is not cnt]
        X = FALSE
        for kind, cc, e, v in exits:
            X = OR(X, cc)
        base = {cnt: kd}
        # condition known inside the body: 0 <= k < n holds
        if dirn < 0 and X is FALSE:
            # order-insensitive? try ascending order
            base2 = {cnt: add(sub(lo, sub(n, D(1))), L(k))}
            nx2 = {f: subst(nexts[f], base2) for f in rest}
            G2 = self.classify(rest, inits, nx2, k)
            if G2 is not None and all(kind in ('sum', 'same', 'flag') for kind, _ in G2.values()):
                base = base2
        nx = {f: subst(nexts[f], base) for f in rest}
        X = subst(X, base)
        # don't-care simplification: inside the body the exit conditions are false on the normal path
        if X is not FALSE:
            nx = {f: care(v, NOT(X)) if isinstance(v, DD) else v for f, v in nx.items()}
        if X is not FALSE and hasmark(X, rest):
            return self.close_mu(S, F, c, comps, inits, nexts, cont, exits, envc, s)
        cls = self.classify(rest, inits, nx, k)

        def final(nn):
            """values of all carried symbols after nn completed iterations"""
            m = {}
            for f in rest:
                m[f] = cls[f][1](nn)
            m[cnt] = add(lo, nn) if dirn > 0 else sub(lo, nn)
            return m
        if X is FALSE:
            fin = final(n)
            env = self.after(S.env, comps, fin)
            return St(env, S.pc, S.ctx)
        ex = mkbind('ex', (n,), (X,), (k,))
        kf = mkbind('first', (n,), (X,), (k,))
        states = []
        fk = None
        atk = final(kf)
        sub1 = dict(base)
        m_at = {f: v for f, v in atk.items()}
        if ex is not TRUE:
            fin = final(n)
            states.append((AND(S.pc, NOT(ex)), self.after(S.env, comps, fin)))
        for kind, cc, e, v in exits:
            c2 = subst(cc, base)
            c2 = self.subst_first(c2, k, kf, m_at, X)
            pc2 = AND(S.pc, AND(ex, c2))
            if pc2 is FALSE:
                continue
            env2 = {}
            for root, val in e.items():
                if root in S.env:
                    if isinstance(val, Ref):
                        env2[root] = val
                    else:
                        env2[root] = self.sub2(val, base, k, kf, m_at)
            if kind == 'break':
                states.append((pc2, env2))
            else:
                v2 = self.sub2(v, base, k, kf, m_at) if v is not None else None
                F.exits.append((kind, pc2, env2, v2))
        return self.joinall(states, S.ctx)

    def subst_first(self, c2, k, kf, m_at, X):
        # if the exit condition is the whole search condition it holds at the first hit
        if c2 is X:
            return TRUE
        return subst(c2, dict(m_at, **{}) | {k: kf})

    def sub2(self, val, base, k, kf, m_at):
        if isinstance(val, Ref):
            return val
        v = subst(val, base)
        m = dict(m_at)
        m[k] = kf
        return subst(v, m)

    def after(self, env0, comps, fin):
        env = dict(env0)
        for f, l, v in comps:
            if env.get(l.root) is None:
                continue
            env[l.root] = self.put(env[l.root], l.steps, fin[f])
        return env

    def find_domain(self, c, phis, inits, nexts):
        if c is TRUE:
            return None
        pset = frozenset(phis)
        for f in phis:
            nx = nexts[f]
            if not isinstance(nx, DD) or nx.var is not None or not f.isint:
                continue
            st = isconst(padd(nx.term, f, -1))
            if st not in (1, -1):
                continue
            for v in ddvars(c).values():
                d = pd(v)
                a = d.get(((f, 1),))
                if a not in (1, -1):
                    continue
                restd = {m: x for m, x in d.items() if m != ((f, 1),)}
                restt = mkpoly(restd)
                if bvs(restt) & pset:
                    continue
                bs = sorted(_cuts(c, v))
                # candidate interval of v on which the loop continues
                for iv in range(len(bs) + 1):
                    lo_ = bs[iv - 1] if iv else None
                    hi_ = bs[iv] if iv < len(bs) else None
                    pass
                r = self.range_of(c, v, bs, a, st, f, restt)
                if r is None:
                    continue
                hi, rangedd, other = r
                if bvs(hi) & pset:
                    continue
                lo = inits[f]
                if st == 1:
                    n = sub(hi, lo)
                else:
                    n = sub(lo, hi)
                return f, lo, n, other, int(st)
        return None

    def range_of(self, c, v, bs, a, st, f, rest):
        """c as (range test on f) AND other; returns exclusive bound"""
        # continuing interval for increasing f: v<b (a=1) or v>=b (a=-1)
        tries = []
        up = (st == 1) == (a == 1)       # v grows
        for b in bs:
            r = N(v, (b,), (TRUE, FALSE)) if up else N(v, (b,), (FALSE, TRUE))
            tries.append((b, r))
        if len(bs) == 2 and bs[1][0] == bs[0][0] + 1:
            r = N(v, tuple(bs), (TRUE, FALSE, TRUE))
            tries.append((bs[0] if up else bs[1], r))
        for b, r in tries:
            other = cofactor(c, v, *self.true_iv(r, v, up))
            if AND(r, other) is c and v.key not in ddvars(other):
                # value bound: int cuts are (b,0) meaning before b
                B = const(b[0])
                if b[1] == 1:
                    B = const(b[0] + 1)
                if a == 1:
                    hi = L(padd(B, rest, -1)) if st == 1 else L(padd(padd(B, rest, -1), ONE, -1))
                    # st==-1: continue while v>=B  i.e. f >= B-rest ; exclusive bound = B-rest-1
                else:
                    # v = rest - f
                    # st==1: continue while rest-f >= B -> f <= rest-B -> exclusive rest-B+1
                    if st == 1:
                        hi = L(padd(padd(rest, B, -1), ONE))
                    else:
                        # continue while rest-f < B -> f > rest-B : exclusive bound rest-B
                        hi = L(padd(rest, B, -1))
                if len(r.kids) == 3:
                    hi = L(padd(const(bs[0][0]), rest, -1)) if a == 1 else L(padd(rest, const(bs[0][0]), -1))
                return hi, r, other
        return None

    def true_iv(self, r, v, up):
        if len(r.kids) == 3:
            return (None, r.breaks[0]) if up else (r.breaks[1], None)
        return (None, r.breaks[0]) if up else (r.breaks[0], None)

    def classify(self, rest, inits, nx, k):
        out = {}
        pset = frozenset(rest)
        for f in rest:
            out[f] = self.classify1(f, inits, nx, k, pset, rest)
        return out

    def classify1(self, f, inits, nx, k, pset, rest):
        n_ = nx[f]
        i0 = inits[f]
        if not isinstance(n_, DD):
            return ('fold', lambda n: self.mkfold(f, inits, nx, k, rest, n))
        if n_.var is None and n_.term is f:
            return ('same', lambda n: i0)
        deps = bvs(n_) & pset
        # flags
        if f.dom == (0, 1) and f.isint and deps <= {f}:
            try:
                n0 = subst(n_, {f: L(ZERO)})
                n1 = subst(n_, {f: L(ONE)})
                if n1 is TRUE:
                    return ('flag', lambda n: OR(asbool(i0), mkbind('ex', (n,), (asbool(n0),), (k,))))
                if n0 is FALSE:
                    return ('flag', lambda n: AND(asbool(i0), NOT(mkbind('ex', (n,), (NOT(n1),), (k,)))))
            except Blowup:
                pass
        # does any condition depend on carried symbols?
        conddeps = any(bvs(v) & pset for v in ddvars(n_).values())
        if not conddeps:
            ls = leaves(n_)
            # sums
            if all(isnumlike(t) for t in ls):
                d = apply(lambda t: padd(t, f, -1), n_)
                if not (bvs(d) & pset):
                    return ('sum', lambda n: add(i0, mkbind('sum', (n,), (d,), (k,))))
            # collections
            if all(t is f or (t.op == 'cat' and t.args[0] is f and not (bvs(t.args[1]) & pset) and isinstance(t.args[1], Term) and t.args[1].op == 'vec' and len(t.args[1].args) == 1) for t in ls):
                cc = apply(lambda t: ZERO if t is f else ONE, n_)
                el = vmap(n_, lambda t: DDC if t is f else V._cl(t.args[1].args[0]))
                return ('collect', lambda n: cat(i0, mkbind('collect', (n,), (cc, norm(el)), (k,))))
            if all(t is f or (t.op == 'cat' and t.args[0] is f and not (bvs(t.args[1]) & pset)) for t in ls):
                el = vmap(n_, lambda t: L(EMPTY) if t is f else V._cl(t.args[1]))
                return ('concat', lambda n: cat(i0, mkbind('mcollect', (n,), (el,), (k,), (1, 'concat'))))
            # element-wise update of a container: upd(f, k, g(nth(f,k), k))
            if all(t is f or (t.op == 'upd' and t.args[0] is f and t.args[1] is k) for t in ls):
                r = self.mapped(f, i0, n_, k, pset)
                if r is not None:
                    return r
            if all(t is f or (t.op == 'mput' and t.args[0] is f and not (bvs(t.args[1:]) & pset)) for t in ls):
                cc = apply(lambda t: ZERO if t is f else ONE, n_)
                kk = vmap(n_, lambda t: DDC if t is f else V._cl(t.args[1]))
                vv = vmap(n_, lambda t: DDC if t is f else V._cl(t.args[2]))
                return ('mcollect', lambda n: L(T('mcat', norm(i0), norm(mkbind('mcollect', (n,), (cc, kk, vv), (k,), (1, 'map'))))))
            # last write
            if all(t is f or not (bvs(t) & pset) for t in ls):
                cc = apply(lambda t: ZERO if t is f else ONE, n_)
                el = vmap(n_, lambda t: DDC if t is f else L(t))
                if not hasmark(el, (k,)):
                    return ('last', lambda n: ite(mkbind('ex', (n,), (cc,), (k,)), el, i0))
                if cc is TRUE:
                    return ('last', lambda n: ite(cmpd(n, D(0), 'gt'), subst(el, {k: sub(n, D(1))}), i0))
                return ('last', lambda n: mkbind('last', (n, i0), (cc, norm(el)), (k,), (), f))
        return ('fold', lambda n: self.mkfold(f, inits, nx, k, rest, n))

    def mapped(self, f, i0, n_, k, pset):
        """v[k] = g(v[k]) for every k: an element-wise map"""
        # every other use of f must be nth(f,k)
        ph = fresh('fp', isint=False, dom=None)
        reps = {}

        def w(t):
            if t.op == 'nth' and t.args[0] is f and t.args[1] is k:
                reps[t] = V.sel
        el = vmap(n_, lambda t: L(T('nth', f, k)) if t is f else V._cl(t.args[2]))
        walk(el, w)
        m = {}
        for t in reps:
            m[t] = T('nth', ph, k, isint=t.isint, dom=t.dom)
        el2 = subst(el, m) if m else el
        if bvs(el2) & pset:
            return None

        def fin(n):
            # only when the range covers the whole container
            full = n is size(i0)
            if not full:
                return mkbind('fold', (n, i0), (n_,), (k, f), (2,), None)
            m2 = {}
            src = i0

            def w2(t):
                if t.op == 'nth' and t.args[0] is ph:
                    m2[t] = mk('nth', t, src, L(k))
            walk(el2, w2)
            e3 = subst(el2, m2) if m2 else el2
            return mkbind('collect', (n,), (TRUE, norm(e3)), (k,))
        return ('map', fin)

    def slice(self, f, nx, rest, extra=()):
        pset = frozenset(rest)
        need, st = [f], [f]
        st2 = set()
        for x in extra:
            for d in bvs(x) & pset:
                if d not in need:
                    need.append(d)
                    st.append(d)
        while st:
            x = st.pop()
            for d in bvs(nx[x]) & pset:
                if d not in need:
                    need.append(d)
                    st.append(d)
        return need

    def order(self, f, need, inits, nx):
        """canonical order of the carried symbols of a fold, independent of their names"""
        oth = [x for x in need if x is not f]
        if len(oth) <= 1:
            return [f] + oth
        if len(need) > 6:
            return self.bigorder(need, inits, nx)
        col = {x: (V.vkey(inits[x]), x.isint) for x in need}
        for rnd in range(3):
            cs = sorted(set(col.values()), key=repr)
            idx = {c: i for i, c in enumerate(cs)}
            m = {x: T('bv', 0, 100 + idx[col[x]], isint=x.isint, dom=x.dom) for x in need}
            new = {}
            for x in need:
                mm = dict(m)
                mm[x] = T('bv', 0, 98, isint=x.isint, dom=x.dom)
                try:
                    new[x] = (col[x], V.vkey(norm(subst(nx[x], mm))))
                except Blowup:
                    new[x] = (col[x], '')
            col = {x: repr(v) for x, v in new.items()}
        return [f] + sorted(oth, key=lambda x: col[x])

    def fieldinit(self, e, t):
        if e.get('k') == 'initlist' and not e.get('a'):
            S, F = St({}, TRUE, TRUE), Frame(None, None)
            F.tu = None
            return self.go(dict(e, t=t), S, F)
        return self.ev_closed(e, t)

    def bigorder(self, need, inits, nx):
        """one canonical order for a large group of mutually dependent carried values"""
        key = frozenset(need)
        r = self.ordcache.get((key, id(nx)))
        if r is not None:
            return r[0]
        col = {x: (V.vkey(inits[x]), x.isint) for x in need}
        for rnd in range(2):
            cs = sorted(set(col.values()), key=repr)
            idx = {c: i for i, c in enumerate(cs)}
            m = {x: T('bv', 0, 100 + idx[col[x]], isint=x.isint, dom=x.dom) for x in need}
            new = subst(tuple(norm(nx[x]) for x in need), m)
            col = {x: repr((col[x], V.vkey(norm(v)))) for x, v in zip(need, new)}
        r = sorted(need, key=lambda x: col[x])
        self.ordcache[(key, id(nx))] = (r, nx)
        return r

    def mkfold(self, f, inits, nx, k, rest, n):
        need = self.slice(f, nx, rest)
        need = self.order(f, need, inits, nx)
        cn = isconst(n.term) if n.var is None else None
        if cn is not None and 0 <= cn <= 6 and cn.denominator == 1:
            vals = {x: inits[x] for x in need}
            for i in range(int(cn)):
                m = dict(vals)
                m[k] = D(i)
                vals = {x: subst(nx[x], m) for x in need}
            return vals[f]
        key = (frozenset(need), id(nx))
        if need[0] is f and len(need) <= 6 or cn is not None:
            return mkbind('fold', (n,) + tuple(inits[x] for x in need), tuple(norm(nx[x]) for x in need), [k] + need, (1 + len(need),), f)
        g = self.foldcache.get((key, n))
        if g is None:
            g = mkbind('fold', (n,) + tuple(inits[x] for x in need), tuple(norm(nx[x]) for x in need), [k] + need, (1 + len(need),), need[0])
            self.foldcache[(key, n)] = g
        return V.vmap(g, lambda t: fromterm(T('proj', t, need.index(f), isint=f.isint, dom=f.dom), None))

    instance = False

    def close_mu(self, S, F, c, comps, inits, nexts, cont, exits, envc, s):
        rest = [x[0] for x in comps]
        brk = [x for x in exits if x[0] == 'break']
        ret = [x for x in exits if x[0] in ('return',)]
        go = AND(c, TRUE)
        X = FALSE
        for kind, cc, e, v in exits:
            X = OR(X, cc)
        exv = {}
        for f, l, v in comps:
            cur = None
            for kind, cc, e, vv in reversed(brk):
                x = self.compval(e, l)
                cur = x if cur is None else ite(cc, x, cur)
            exv[f] = cur
        fin = {}
        for f in rest:
            need = self.slice(f, nexts, rest, (go, X))
            if X is not FALSE:
                for f2 in list(need):
                    if exv[f2] is not None:
                        for d in bvs(exv[f2]) & frozenset(rest):
                            if d not in need:
                                need.append(d)
                need = self.slice(f, nexts, rest, tuple([go, X] + [L(x) for x in need]))
            need = self.order(f, need, inits, nexts)
            bodies = [go, X] + [norm(nexts[x]) for x in need]
            if X is not FALSE and exv[f] is not None:
                bodies.append(norm(exv[f]))
            fin[f] = mkbind('mu', tuple(inits[x] for x in need), tuple(bodies), need, (len(need),), f)
        env = self.after(S.env, comps, fin)
        pc = S.pc
        if ret:
            m = dict(fin)
            rc = FALSE
            for kind, cc, e, v in ret:
                need = self.order(rest[0], list(rest), inits, nexts) if rest else []
                bodies = [go, X, cc] + [norm(nexts[x]) for x in need]
                fl = mkbind('mu', tuple(inits[x] for x in need), tuple(bodies), need, (len(need), 'ret'), T('bool', isint=True, dom=(0, 1)))
                fl = asbool(fl)
                pc2 = AND(S.pc, fl)
                env2 = {}
                for root, val in e.items():
                    if root in S.env:
                        env2[root] = val if isinstance(val, Ref) else subst(val, m)
                F.exits.append((kind, pc2, env2, subst(v, m) if v is not None else None))
                pc = AND(pc, NOT(fl))
        if pc is FALSE:
            return None
        return St(env, pc, S.ctx)


def isnumlike(t):
    return t.op not in ('vec', 'cat', 'upd', 'mput', 'sput', 'str', 'box', 'drop', 'take', 'collect', 'sorted') or t.isint


from values import _cuts  # noqa

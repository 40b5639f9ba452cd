"""Rules over the type-checked program that need no reference values."""
import re

from compare import Comparison, DIFF, EQ, UNK, evaluable, callees
from context import Result
from judge import short, Shortcut, render
import terms
import values as V
from terms import AND, Blowup, FALSE, NOT, OR, TRUE, bvs, implies
from program import AnalysisBroken, GROUPS

SCALAR = ('int', 'float', 'bool', 'enum', 'ptr')


def walk(x):
    st = [x]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            yield x
            st.extend(v for v in x.values() if isinstance(v, (dict, list)))
        elif isinstance(x, list):
            st.extend(x)


def code(f):
    return [f.get('inits'), f.get('body')]


def exprs(f):
    return (n for n in walk(code(f)) if isinstance(n.get('k'), str))


def loc(f, n=None):
    return '%s:%s in %s' % (f.get('file', f.get('tu')), (n or {}).get('l') or f.get('line'), short(f['n']))


def is_example(f):
    t = f.get('file', '')
    return '/examples/' in t or t.startswith('tests/') or f.get('main')


def strip_casts(e):
    while isinstance(e, dict) and e.get('k') in ('cast', 'paren', 'definit', 'materialize', 'cleanups'):
        e = e['e']
    return e


# ---------------------------------------------------------------------------- P01
def definit(ctx):
    res = Result('definit', 'every scalar member is initialised by its declaration or by every constructor of its class, and every scalar local is assigned on every path before it is read')
    for g in GROUPS:
        P, R = ctx.cur(g), ctx.ref(g)
        for key, r in sorted(P.records.items()):
            if r.get('union') or not r.get('fields'):
                continue
            users = [c for c in r.get('ctors', []) if c.get('user') and not c.get('copy') and not c.get('move') and not c.get('deleted')]
            for fl in r['fields']:
                t = fl['t']
                if t.get('k') not in SCALAR or t.get('ref'):
                    continue
                if fl.get('init'):
                    res.ok('%s::%s' % (short(key), fl['n']))
                    continue
                if not users:
                    bad = [d for d in default_sites(P, key) if not assigned_after(d, fl['n'])]
                    if bad:
                        f, n = bad[0][0], bad[0][1]
                        res.bad('%s:%s::%s' % (g, short(key), fl['n']), loc(f, n), '%s::%s has no initial value: the object is created without one and the member may be read' % (short(key), fl['n']))
                    else:
                        res.ok()
                    continue
                miss = [c for c in users if not ctor_sets(P, c['id'], fl['n'])]
                if miss:
                    res.bad('%s:%s::%s' % (g, short(key), fl['n']), '%s:%s' % (r.get('file'), fl.get('line')), '%s::%s has no initial value: not set by its declaration nor by constructor %s' % (short(key), fl['n'], miss[0]['id']))
                else:
                    res.ok()
        for f in P.functions.values():
            if evaluable(f):
                for v, n in uninit_reads(f, P):
                    res.bad('%s:%s:%s' % (g, short(f['n']), v['n']), loc(f, n), 'local %s may be read before it is assigned' % v['n'])
                res.ok()
    res.need(600, 'members and functions')
    return res


def ctor_sets(P, cid, field, depth=0):
    f = P.functions.get(cid)
    if f is None or f.get('body') is None:
        return True     # defined elsewhere or defaulted
    for i in f.get('inits') or []:
        if i.get('delegate') or i.get('delegating'):
            return True
        if i.get('f') == field or i.get('field') == field or i.get('n') == field:
            e = i.get('e')
            return not (isinstance(e, dict) and e.get('k') == 'undefinit')
    a = Assigned({('this', field)}, P)
    try:
        out = a.stmt(f['body'], frozenset())
    except Giveup:
        return True
    return out is None or ('this', field) in out


def default_sites(P, key):
    """declarations and new-expressions creating an object of the record without a value"""
    out = []
    for f in P.functions.values():
        if not evaluable(f):
            continue
        for n in exprs(f):
            if n['k'] == 'decl':
                for v in n['v']:
                    i = v.get('init')
                    if v['t'].get('k') == 'rec' and recname(v['t']) == key and default_ctor(i):
                        out.append((f, n, v))
            elif n['k'] == 'new' and isinstance(n.get('e'), dict) and recname(n['nt']) == key and default_ctor(n['e']):
                out.append((f, n, None))
    return out


def default_ctor(i):
    return i is None or (isinstance(i, dict) and i.get('k') == 'ctor' and not i.get('a') and not i.get('zero') and not i.get('list') and i.get('implicit'))


def recname(t):
    return t.get('full') or t.get('n')


def assigned_after(site, field):
    f, n, v = site
    if v is None:
        return False
    a = Assigned({(v['id'], field)}, None)
    try:
        a.stmt(f['body'], frozenset())
    except Giveup:
        return True
    return not a.bad


class Giveup(Exception):
    pass


class Assigned:
    """definite assignment over the structured syntax tree.  A state is the set of assigned
    variables, or None where control never arrives.  Reads of tracked variables in a state
    that does not contain them are collected in .bad"""

    def __init__(self, tracked, P):
        self.tracked = tracked      # (variable id or 'this', field or None)
        self.byvar = {}
        for v, f in tracked:
            self.byvar.setdefault(v, set()).add(f)
        self.bad = []
        self.brk, self.cont = [], []

    # join of two states
    @staticmethod
    def join(a, b):
        if a is None:
            return b
        if b is None:
            return a
        return a & b

    def stmts(self, l, s):
        for x in l:
            s = self.stmt(x, s)
        return s

    def stmt(self, x, s):
        if x is None or s is None and x.get('k') not in ('case', 'default', 'block'):
            return s
        k = x.get('k')
        if k == 'block':
            return self.stmts(x.get('c') or [], s)
        if k == 'expr':
            return self.ex(x['e'], s)
        if k == 'decl':
            for v in x['v']:
                if v.get('init') is not None:
                    s = self.ex(v['init'], s)
                    if v['id'] in self.byvar and None in self.byvar[v['id']]:
                        s = s | {(v['id'], None)}
                elif v['id'] in self.byvar:
                    s = s - {(v['id'], f) for f in self.byvar[v['id']]}
            return s
        if k == 'return':
            if x.get('e') is not None:
                self.ex(x['e'], s)
            return None
        if k == 'throw':
            return None
        if k == 'break':
            self.brk[-1].append(s)
            return None
        if k == 'continue':
            self.cont[-1].append(s)
            return None
        if k == 'if':
            if x.get('init'):
                s = self.stmt(x['init'], s)
            if x.get('var'):
                s = self.stmt({'k': 'decl', 'v': [x['var']]}, s)
            s = self.ex(x['c'], s)
            v = constcond(x['c'])
            a = self.stmt(x.get('a'), s) if v is not False else None
            b = (self.stmt(x.get('b'), s) if x.get('b') else s) if v is not True else None
            return self.join(a, b)
        if k in ('while', 'for', 'rfor', 'do'):
            if k == 'for' and x.get('init'):
                s = self.stmt(x['init'], s)
            if k == 'rfor':
                s = self.ex(x['range'], s)
            self.brk.append([])
            self.cont.append([])
            v = constcond(x.get('c')) if x.get('c') is not None else (True if k == 'for' else None)
            if k == 'do':
                b = self.stmt(x.get('b'), s)
                for c in self.cont[-1]:
                    b = self.join(b, c)
                out = self.ex(x['c'], b) if b is not None else None
            else:
                s1 = self.ex(x['c'], s) if x.get('c') is not None and k != 'rfor' else s
                b = self.stmt(x.get('b'), s1)
                for c in self.cont[-1]:
                    b = self.join(b, c)
                if x.get('inc') is not None and b is not None:
                    self.ex(x['inc'], b)
                out = s1 if v is not True else None
            for c in self.brk.pop():
                out = self.join(out, c)
            self.cont.pop()
            return out
        if k == 'switch':
            s = self.ex(x['c'], s)
            self.brk.append([])
            self.entry = getattr(self, 'entry', [])
            self.entry.append(s)
            end = self.stmt(x['b'], None)
            self.entry.pop()
            hasdef = any(n.get('k') == 'default' for n in walk(x['b']))
            for c in self.brk.pop():
                end = self.join(end, c)
            return end if hasdef else self.join(end, s)
        if k in ('case', 'default'):
            s = self.join(s, self.entry[-1]) if s is not None else self.entry[-1]
            return self.stmt(x.get('s'), s)
        if k == 'try':
            a = self.stmt(x['b'], s)
            for h in x.get('h') or []:
                a = self.join(a, self.stmt(h.get('b') if isinstance(h, dict) and 'b' in h else h, s))
            return a
        if k in ('null', 'empty'):
            return s
        if k in ('label', 'goto'):
            raise Giveup()
        return self.ex(x, s)

    def target(self, e):
        """tracked variable an lvalue denotes"""
        e = strip_casts(e)
        if not isinstance(e, dict):
            return None
        if e.get('k') == 'var' and e.get('id') in self.byvar and None in self.byvar[e['id']]:
            return (e['id'], None)
        if e.get('k') == 'mem':
            b = strip_casts(e['b'])
            if b.get('k') == 'this' and 'this' in self.byvar and e['f'] in self.byvar['this']:
                return ('this', e['f'])
            if b.get('k') == 'var' and b.get('id') in self.byvar and e['f'] in self.byvar[b['id']]:
                return (b['id'], e['f'])
        return None

    def whole(self, e):
        e = strip_casts(e)
        if isinstance(e, dict) and e.get('k') == 'un' and e.get('op') == '&':
            e = strip_casts(e['e'])
        if not isinstance(e, dict):
            return set()
        t = self.target(e)
        if t:
            return {t}
        if e.get('k') == 'var' and e.get('id') in self.byvar:
            return {(e['id'], f) for f in self.byvar[e['id']]}
        if e.get('k') == 'this' and 'this' in self.byvar:
            return {('this', f) for f in self.byvar['this']}
        if e.get('k') == 'index':
            return self.whole(e['b'])
        return set()

    def ex(self, e, s):
        if s is None or not isinstance(e, dict):
            return s
        k = e.get('k')
        t = self.target(e)
        if t is not None:
            if t not in s:
                self.bad.append((t, e))
            return s
        if k == 'var':
            if e.get('id') in self.byvar:
                for f in self.byvar[e['id']]:
                    if (e['id'], f) not in s:
                        self.bad.append(((e['id'], f), e))
            return s
        if k == 'assign':
            s = self.ex(e['rhs'], s)
            t = self.target(e['lhs'])
            if t is not None:
                return s | {t}
            w = self.whole(e['lhs'])
            if w:
                return s | w
            return self.ex(e['lhs'], s)
        if k == 'un' and e.get('op') == '&':
            return s | self.whole(e['e'])
        if k == 'bin' and e.get('op') in ('&&', '||'):
            s = self.ex(e['lhs'], s)
            self.ex(e['rhs'], s)
            return s
        if k == 'cond':
            s = self.ex(e['c'], s)
            return self.join(self.ex(e['a'], s), self.ex(e['b'], s))
        if k == 'lambda':
            for c in e.get('caps') or []:
                i = c.get('id')
                if i in self.byvar:
                    s = s | {(i, f) for f in self.byvar[i]}
            return s
        if k in ('call', 'mcall', 'opcall', 'ctor'):
            pt = (e.get('f') or {}).get('pt') if isinstance(e.get('f'), dict) else None
            args = list(e.get('a') or [])
            o = e.get('o')
            if isinstance(e.get('ce'), dict):
                s = self.ex(e['ce'], s)
            if k == 'opcall' and pt is not None and len(args) == len(pt) + 1:
                o, args = args[0], args[1:]
                if e.get('op') == '=' and self.whole(o):
                    for a in args:
                        s = self.ex(a, s)
                    return s | self.whole(o)
            out = set()
            if o is not None:
                w = self.whole(o)
                if w and not (isinstance(e.get('f'), dict) and e['f'].get('const')):
                    out |= w
                elif w and isinstance(e.get('f'), dict) and e['f'].get('const') and self.target(o) is None:
                    out |= w        # const method: may read only some members
                else:
                    s = self.ex(o, s)
            for i, a in enumerate(args):
                p = pt[i] if pt is not None and i < len(pt) else None
                w = self.whole(a)
                byref = p is None or (p.get('ref') and not p.get('const')) or p.get('k') == 'ptr'
                if w and byref:
                    out |= w
                elif w and p is not None and p.get('ref') and a.get('k') == 'var':
                    if self.target(a) is not None:
                        s = self.ex(a, s)
                    # a record passed by const reference may be read partially
                else:
                    s = self.ex(a, s)
            return s | out
        if k == 'un' and e.get('op') in ('sizeof',):
            return s
        for key in ('lhs', 'rhs', 'e', 'b', 'i', 'c', 'o', 'a', 'ch', 'init', 'ce'):
            v = e.get(key)
            if isinstance(v, dict):
                s = self.ex(v, s)
            elif isinstance(v, list):
                for x in v:
                    s = self.ex(x, s)
        return s


def constcond(c):
    c = strip_casts(c)
    if isinstance(c, dict):
        if c.get('k') == 'bool' and 'v' in c:
            return bool(c['v']) if not isinstance(c['v'], str) else c['v'] not in ('0', 'false')
        if c.get('k') == 'int' and 'v' in c:
            return str(c['v']) != '0'
    return None


def uninit_reads(f, P):
    vs = {}
    for n in exprs(f):
        if n['k'] == 'decl':
            for v in n['v']:
                if v.get('static') or v.get('init') is not None and not default_ctor(v.get('init')):
                    continue
                t = v['t']
                if t.get('ref'):
                    continue
                if t.get('k') in SCALAR and v.get('init') is None:
                    vs.setdefault(v['id'], (v, set()))[1].add(None)
    if not vs:
        return []
    a = Assigned({(i, x) for i, (v, s) in vs.items() for x in s}, P)
    try:
        a.stmt(f['body'], frozenset())
    except Giveup:
        return []
    seen, out = set(), []
    for (i, fl), e in a.bad:
        if i not in seen:
            seen.add(i)
            out.append((vs[i][0], e))
    return out


# ---------------------------------------------------------------------------- P02
DENY = [
    (r'^(std::)?(s?rand|rand_r|drand48|random|srandom)$', 'random numbers'),
    (r'^std::random_device|^std::(mersenne_twister_engine|linear_congruential_engine|subtract_with_carry|default_random_engine|uniform_\w+_distribution|normal_distribution|shuffle|random_shuffle)', 'random numbers'),
    (r'^std::chrono::.*clock.*::now|^(std::)?(time|clock|gettimeofday|clock_gettime|localtime|gmtime|mktime|ftime|times)$', 'the clock'),
    (r'^(std::|secure_)?getenv$|^setlocale$|^getpid$|^gethost\w+|^std::this_thread::get_id|^pthread_self$|^std::thread::id', 'the environment'),
    (r'^std::hash<.*\*>', 'addresses'),
    (r'^(std::)?(fesetround|fegetround)$', 'the floating-point environment'),
    (r'^std::this_thread::sleep|^usleep$|^sleep$', 'time'),
]
UNORD = re.compile(r'std::(unordered_\w+)|boost::unordered')


def determinism(ctx):
    res = Result('determinism', 'no call reaches randomness, clocks, environment or addresses; no mutable global or function-local static; hash-ordered containers are only looked up, or traversed where order cannot matter')
    deny = [(re.compile(p), w) for p, w in DENY]
    for g in GROUPS:
        P, R = ctx.cur(g), ctx.ref(g)
        for f in P.functions.values():
            if not evaluable(f) or is_example(f):
                continue
            bad = None
            for n in exprs(f):
                k = n['k']
                q = None
                if k in ('call', 'mcall', 'opcall', 'ctor', 'fnref') and isinstance(n.get('f'), dict) and not n['f'].get('inroot'):
                    q = n['f'].get('n') or ''
                    for p, w in deny:
                        if p.search(q):
                            bad = (n, 'uses %s (%s)' % (w, q), q)
                    if UNORD.match(q) and q.rsplit('::', 1)[-1] in ('begin', 'cbegin', 'bucket', 'begin()'):
                        if not lookup_only(f, n):
                            bad = (n, 'walks a hash container (%s) whose order is unspecified' % q.rsplit('::', 1)[0][:80], 'unordered')
                if k == 'rfor':
                    rt = n['range'].get('t') or {}
                    if UNORD.match(rt.get('n') or '') and not order_free(n):
                        bad = (n, 'iterates over a hash container whose order is unspecified', 'unordered')
                if k == 'cast' and n.get('ck') == 'PointerToIntegral':
                    bad = (n, 'turns an address into a number', 'address')
                if k == 'bin' and n.get('op') in ('<', '>', '<=', '>=', '-') and ptr(n['lhs']) and ptr(n['rhs']) and n.get('op') != '-':
                    bad = (n, 'orders addresses', 'address')
                if bad:
                    break
            if bad:
                res.bad('%s:%s:%s' % (g, short(f['n']), bad[2]), loc(f, bad[0]), bad[1])
            else:
                res.ok('%s has no hidden input' % short(f['n']))
        for (tu, i), v in sorted(P.globals.items()):
            fl = v.get('file') or tu
            if '/examples/' in fl or fl.startswith('tests/') or '/examples/' in tu or tu.startswith('tests/'):
                continue
            if v['t'].get('const') or v.get('constexpr') or v['t'].get('k') == 'ref' or (v['t'].get('ref') and v['t'].get('const')):
                res.ok()
            else:
                res.bad('%s:global:%s' % (g, v.get('qn') or v['n']), '%s:%s' % (fl, v.get('line')), 'mutable %s %s is shared by everything in the process' % ('function-local static' if v.get('staticlocal') else 'global', v.get('qn') or v['n']))
        for key, r in P.records.items():
            for s in r.get('statics', []):
                t = s.get('t', {})
                if t.get('const') or s.get('constexpr'):
                    res.ok()
                else:
                    res.bad('%s:static:%s::%s' % (g, short(key), s.get('n')), '%s:%s' % (r.get('file'), s.get('line', r.get('line'))), 'mutable static member %s::%s is shared by every object' % (short(key), s.get('n')))
            for fl in r.get('fields', []):
                t = fl['t']
                if re.match(r'std::(map|set|multimap|multiset)$', t.get('n') or '') and t.get('ta') and t['ta'][0].get('k') == 'ptr':
                    res.bad('%s:%s::%s' % (g, short(key), fl['n']), '%s:%s' % (r.get('file'), fl.get('line')), 'ordered container keyed by addresses')
    # positive example: the deny list must recognise the one place the repository does use randomness
    P = ctx.cur('complementary_filter')
    hits = [f for f in P.functions.values() for n in exprs(f) if isinstance(n.get('f'), dict) and any(p.search(n['f'].get('n') or '') for p, w in deny)]
    res.notes.append('uses of randomness recognised in the example program (outside the property): %d' % len(hits))
    res.need(400, 'functions and globals')
    return res


def ptr(e):
    t = (e or {}).get('t') or {}
    return t.get('k') == 'ptr'


SEARCH = {'find_if', 'find_if_not', 'find', 'any_of', 'all_of', 'none_of', 'count', 'count_if', 'is_permutation', 'distance'}
ORDERED = re.compile(r'std::(unordered_)?(multi)?(map|set)$')


def lookup_only(f, n):
    """the begin() n of a hash container is the start of a search, of an order-free loop, or fills a container with keys of its own"""
    for x in exprs(f):
        k = x['k']
        if k in ('call', 'ctor', 'mcall') and any(strip_wrap(y) is n for y in x.get('a') or []):
            q = plain((x.get('f') or {}).get('n') or '')
            base = q.rsplit('::', 1)[-1]
            t = x.get('t') or {}
            if k == 'call' and base in SEARCH:
                return True
            if k == 'call' and base == 'for_each':
                return all(order_free({'b': y.get('body') or y.get('b')}) for y in walk(x.get('a')) if y.get('k') == 'lambda')
            if k == 'ctor' and ORDERED.match(t.get('n') or ''):
                return True
            if k == 'mcall' and base == 'insert' and ORDERED.match((noref(x.get('o') or x.get('obj') or {}).get('n') or '')):
                return True
            return False
        if k in ('for', 'while') and any(y is n for y in walk(x.get('init'))):
            return order_free(x)
    return False


def noref(e):
    t = (e or {}).get('t') or {}
    return t


def plain(n):
    """qualified name without template arguments"""
    m = None
    while m != n:
        m, n = n, re.sub(r'<[^<>]*>', '', n)
    return n


def strip_wrap(e):
    while isinstance(e, dict) and e.get('k') in ('cast', 'paren', 'materialize', 'cleanups', 'definit', 'copy', 'tmp') and isinstance(e.get('e'), dict):
        e = e['e']
    while isinstance(e, dict) and e.get('k') == 'ctor' and len(e.get('a') or []) == 1:
        e = strip_wrap(e['a'][0])
    return e


def order_free(loop):
    """the body only returns from a search with a unique key, fills a container with keys of its own or performs commutative integer updates"""
    body = loop['b']
    own = {v.get('id') for n in walk(body) if n.get('k') == 'decl' for v in n.get('v') or [] if isinstance(v, dict)}
    own.add(loop['var'].get('id') if isinstance(loop.get('var'), dict) else None)

    def local(e):
        e = strip_casts(e)
        while isinstance(e, dict) and e.get('k') in ('mem', 'field', 'idx', 'sub'):
            e = strip_casts(e.get('e') or e.get('o') or e.get('b'))
        return isinstance(e, dict) and e.get('k') == 'var' and e.get('id') in own

    def keyed(e):
        e = strip_casts(e)
        return isinstance(e, dict) and e.get('k') in ('opcall', 'mcall') and (e.get('f') or {}).get('n', '').endswith('::operator[]') and ORDERED.match(plain(e['f'].get('n') or '').rsplit('::', 1)[0])
    for n in walk(body):
        k = n.get('k')
        if k in ('cassign',) and not local(n['lhs']) and not (n.get('op') in ('+', '|', '&', '^') and (n['lhs'].get('t') or {}).get('k') in ('int', 'bool')):
            return False
        if k == 'assign' and not local(n['lhs']) and not keyed(n['lhs']):
            return False
        if k in ('mcall', 'opcall') and isinstance(n.get('f'), dict) and not n['f'].get('const') and n['f'].get('n', '').rsplit('::', 1)[-1] in ('push_back', 'emplace_back', 'operator<<', 'append', 'operator+='):
            o = n.get('o') or n.get('obj') or (n.get('a') or [None])[0]
            if not (o is not None and local(o)):
                return False
        if k == 'opcall' and (n.get('f') or {}).get('n', '').endswith('operator=') and not keyed((n.get('a') or [{}])[0]) and not local((n.get('a') or [{}])[0]):
            return False
        if k == 'break':
            return False
    return True


# ---------------------------------------------------------------------------- P03
MAPROOT = ['LevelCollector', 'GeoLevel']
SETTINGS = ['NavigationSettings', 'CommonSettings', 'LevelSettings']
NS = 'navigine::navigation_core::'


def map_records(P):
    names = {r.split('<')[0] for r in P.records}
    todo = [NS + 'LevelCollector'] + [NS + s for s in SETTINGS]
    todo += [NS + 'Level', NS + 'LevelGeometry', NS + 'Radiomap', NS + 'Graph', NS + 'Transmitter', NS + 'ReferencePoint', NS + 'SignalStatistics', NS + 'MeasurementDataWithTimeStamp']
    need = [t for t in todo if t in names]
    if len(need) < 8:
        raise AnalysisBroken('map and settings classes not found: %s' % sorted(set(todo) - set(need)))
    return set(need)


def immutability(ctx):
    res = Result('immutability', 'in everything reachable while navigating no map, settings or input object is written through a reference, pointer or shared pointer; no const is cast away; map classes have no mutable members and hand out only const access')
    P = ctx.cur('core')
    recs = map_records(P)

    def ismap(t):
        return isinstance(t, dict) and t.get('k') == 'rec' and (t.get('n') or '').split('<')[0] in recs

    for key, r in P.records.items():
        if key.split('<')[0] not in recs:
            continue
        for fl in r['fields']:
            if fl.get('mutable'):
                res.bad('mutable:%s::%s' % (short(key), fl['n']), '%s:%s' % (r.get('file'), fl.get('line')), 'mutable member in a shared map class')
            else:
                res.ok('%s::%s is not mutable' % (short(key), fl['n']))
    build = {f['id'] for f in P.functions.values() if f.get('rec') and f['rec'].split('<')[0] in recs}
    buildfn = reach(P, [f['id'] for f in P.functions.values() if f['n'].startswith(NS + 'LevelCollector::') or f.get('file', '').endswith('barriers_geometry_builder.h')])
    nav = reach(P, [f['id'] for f in P.functions.values() if re.search(r'NavigationClientImpl::|createNavigationClient$', f['n'])])
    if len(nav) < 120:
        raise AnalysisBroken('only %d functions reachable from navigation' % len(nav))
    for f in P.functions.values():
        if evaluable(f) and f.get('const') and f.get('rec') and f['rec'].split('<')[0] in recs:
            nav.add(f['id'])
    for fid in sorted(nav | set(P.functions)):
        f = P.functions[fid]
        if not evaluable(f):
            continue
        if fid not in nav:
            # outside navigation (map building): only the escape hatch matters
            for n in exprs(f):
                if n['k'] == 'cast' and n.get('style') in ('const', 'c', 'reinterpret', 'functional') and drops_const(n):
                    res.bad('%s:const_cast' % short(f['n']), loc(f, n), 'casts const away')
                    break
            continue
        owned = {v['id'] for n in exprs(f) if n['k'] == 'decl' for v in n['v'] if not v['t'].get('ref')} | {p['id'] for p in f['params'] if not p['t'].get('ref')}
        inmap = f.get('rec') and f['rec'].split('<')[0] in recs
        bad = None
        for n in exprs(f):
            k = n['k']
            if k == 'cast' and n.get('style') in ('const', 'c', 'reinterpret', 'functional') and drops_const(n):
                bad = (n, 'casts const away', 'const_cast')
            if k in ('assign', 'cassign'):
                o = shared_target(n['lhs'], ismap, owned, inmap)
                if o:
                    bad = (n, 'writes %s of a shared object' % o, 'write:' + o)
            if k == 'un' and n.get('op') in ('++', '--', 'post++', 'post--', 'pre++', 'pre--'):
                o = shared_target(n['e'], ismap, owned, inmap)
                if o:
                    bad = (n, 'writes %s of a shared object' % o, 'write:' + o)
            if k in ('mcall', 'opcall') and isinstance(n.get('f'), dict) and not n['f'].get('const') and not n['f'].get('static'):
                o = n.get('o') if k == 'mcall' else (n.get('a') or [None])[0]
                if k == 'opcall' and not n['f'].get('method'):
                    o = None
                if o is not None and not constobj(o):
                    x = shared_target(o, ismap, owned, inmap)
                    if x:
                        bad = (n, 'calls the non-const %s on %s of a shared object' % (short(n['f'].get('n', '')), x), 'call:' + x)
            if bad:
                break
        if bad and not (inmap and f.get('isctor')):
            res.bad('%s:%s' % (short(f['n']), bad[2]), loc(f, bad[0]), bad[1])
        else:
            res.ok('%s writes no shared object' % short(f['n']))
    # accessors of the map classes
    for f in P.functions.values():
        if not f.get('rec') or f['rec'].split('<')[0] not in recs or f.get('isctor') or f.get('isdtor') or f.get('implicit') or f.get('static'):
            continue
        r = f.get('ret') or {}
        leak = (r.get('ref') and not r.get('const')) or (r.get('k') == 'ptr' and not (r.get('to') or {}).get('const'))
        if leak and f['n'].rsplit('::', 1)[-1] not in ('operator=',):
            res.bad('accessor:%s' % short(f['n']), loc(f), 'hands out mutable access to the map')
        else:
            res.ok()
    # entry points take maps, settings and batches as const
    for f in P.functions.values():
        if re.search(r'(NavigationClientImpl::navigate|createNavigationClient)$', f['n']):
            for p in f['params']:
                t = p['t']
                if t.get('ref') and not t.get('const') and not t.get('rv'):
                    res.bad('param:%s:%s' % (short(f['n']), p['n']), loc(f), 'takes its input by mutable reference')
                else:
                    res.ok()
    res.need(150, 'functions, members and accessors')
    return res


def drops_const(n):
    def c(t):
        if not isinstance(t, dict):
            return False
        if t.get('ref'):
            return bool(t.get('const'))
        if t.get('k') == 'ptr':
            return bool((t.get('to') or {}).get('const'))
        return False
    a, b = n.get('t') or {}, (n['e'] or {}).get('t') or {}
    if n.get('style') == 'const':
        return True
    if a.get('k') == 'ptr' and b.get('k') == 'ptr':
        return c(b) and not c(a)
    if a.get('ref') and not a.get('const') and b.get('const'):
        return True
    return False


def constobj(o):
    t = (o or {}).get('t') or {}
    if t.get('const'):
        return True
    if t.get('k') == 'ptr' and (t.get('to') or {}).get('const'):
        return True
    return False


def shared_target(e, ismap, owned, inmap):
    """description of the shared map object an lvalue is part of, or None: the access path must
    pass through a map record and start outside the objects the function or client owns"""
    hit = None
    e = strip_casts(e)
    first = True
    while isinstance(e, dict):
        k = e.get('k')
        t = e.get('t') or {}
        if ismap(t):
            hit = short(t.get('n') or '')
        if k == 'mem':
            b = strip_casts(e['b'])
            bt = b.get('t') or {}
            if e.get('arrow') and b.get('k') != 'this':
                pt = bt.get('to') if bt.get('k') == 'ptr' else bt
                if ismap(pt):
                    return short(pt.get('n') or '')
                if hit:
                    return hit
                e = b
                continue
            if b.get('k') == 'this':
                if inmap:
                    return None     # a method of the map itself: its callers are examined
                ft = e.get('t') or {}
                return hit if (hit and (ft.get('ref') or ft.get('k') == 'ptr')) else None
            e = b
            continue
        if k == 'var':
            if e.get('vk') in ('local', 'param') and e.get('id') in owned:
                return None
            tt = e.get('t') or {}
            return hit if hit and not tt.get('const') else None
        if k == 'opcall' and e.get('op') in ('->', '*'):
            a = (e.get('a') or [None])[0]
            at = (a or {}).get('t') or {}
            ta = (at.get('ta') or [{}])[0]
            if (ismap(ta) and not ta.get('const')) or (hit and not ta.get('const')):
                return hit or short(ta.get('n') or '')
            return None
        if k in ('opcall', 'mcall', 'call', 'index'):
            f = e.get('f') if isinstance(e.get('f'), dict) else {}
            if k == 'index':
                e = strip_casts(e['b'])
                continue
            o = e.get('o') if k == 'mcall' else ((e.get('a') or [None])[0] if f.get('method') else None)
            if k == 'call' or o is None:
                return None
            if e.get('t', {}).get('const'):
                return None
            e = strip_casts(o)
            continue
        if k == 'un' and e.get('op') == '*':
            e = strip_casts(e['e'])
            continue
        return None
    return None


def reach(P, roots):
    seen, todo = set(), list(roots)
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        f = P.functions.get(i)
        if f is None:
            continue
        seen.add(i)
        todo.extend(callees(f))
        todo.extend(g['id'] for g in P.overrides.get(i, []))
    return seen


# ---------------------------------------------------------------------------- P27
GROW = ('push_back', 'emplace_back', 'push_front', 'emplace_front', 'insert', 'emplace', 'append', 'push', 'emplace_hint')
SHRINK = ('pop_back', 'pop_front', 'erase', 'clear', 'resize', 'assign', 'swap', 'pop', 'operator=', 'shrink_to_fit')
CONTAINER = re.compile(r'(std::(vector|deque|list|map|set|multimap|multiset|unordered_\w+|queue|stack|basic_string|priority_queue))$')


def growth(ctx):
    res = Result('growth', 'every member container that is appended to outside construction is also shrunk by its class on the same object')
    total = 0
    for g in GROUPS:
        P = ctx.cur(g)
        stateful = {}
        for f in P.functions.values():
            if not evaluable(f) or not f.get('rec') or is_example(f):
                continue
            for n in exprs(f):
                k = n['k']
                tgt = op = None
                if k == 'mcall' and isinstance(n.get('f'), dict):
                    m = (n['f'].get('n') or '').rsplit('::', 1)[-1]
                    if m in GROW:
                        tgt, op = n.get('o'), 'grow'
                    elif m in SHRINK:
                        tgt, op = n.get('o'), 'shrink'
                elif k == 'opcall':
                    a = (n.get('a') or [None])
                    if n.get('op') == '=':
                        tgt, op = a[0], 'shrink'
                    elif n.get('op') == '+=':
                        tgt, op = a[0], 'grow'
                    elif n.get('op') == '[]' and re.match(r'std::(unordered_)?map', ((a[0] or {}).get('t') or {}).get('n') or ''):
                        tgt, op = a[0], 'grow'
                elif k in ('call',) and isinstance(n.get('f'), dict) and (n['f'].get('n') or '').startswith('std::back_inserter'):
                    tgt, op = (n.get('a') or [None])[0], 'grow'
                elif k in ('call', 'mcall', 'opcall'):
                    pass
                if tgt is None:
                    # helper taking the container by mutable reference
                    continue
                fld = member_of_this(tgt)
                if fld and CONTAINER.search((fld[1] or {}).get('n') or ''):
                    ent = stateful.setdefault((f['rec'], fld[0]), {'grow': [], 'shrink': []})
                    ent[op].append((f, n))
            # containers handed to repository helpers by mutable reference count as shrunk there if the helper shrinks its parameter
            for n in exprs(f):
                if n['k'] in ('call', 'mcall') and isinstance(n.get('f'), dict) and n['f'].get('inroot'):
                    h = P.functions.get(n['f'].get('id'))
                    if h is None or h.get('body') is None:
                        continue
                    for a, p in zip(n.get('a') or [], h['params']):
                        fld = member_of_this(a)
                        if fld and p['t'].get('ref') and not p['t'].get('const') and CONTAINER.search((fld[1] or {}).get('n') or ''):
                            ent = stateful.setdefault((f['rec'], fld[0]), {'grow': [], 'shrink': []})
                            for m in exprs(h):
                                nm = (m['f'].get('n') or '').rsplit('::', 1)[-1] if m['k'] == 'mcall' and isinstance(m.get('f'), dict) else None
                                if nm in GROW + SHRINK and isinstance(m.get('o'), dict) and strip_casts(m['o']).get('id') == p['id']:
                                    ent['grow' if nm in GROW else 'shrink'].append((h, m))
        for (rec, fld), ent in sorted(stateful.items()):
            runtime = [(f, n) for f, n in ent['grow'] if not f.get('isctor')]
            if not runtime:
                continue
            if is_map_builder(rec):
                continue
            if (short(rec), fld) in KEYED and all(n['k'] == 'opcall' and n.get('op') == '[]' for f, n in runtime):
                res.ok('%s::%s: %s' % (short(rec), fld, KEYED[short(rec), fld]))
                continue
            total += 1
            shr = [(f, n) for f, n in ent['shrink'] if not f.get('isctor') and not f.get('isdtor')]
            shr = [(f, n) for f, n in shr if not resetonly(P, f, runtime)]
            if shr:
                res.ok('%s::%s grows in %s and is shrunk in %s' % (short(rec), fld, short(runtime[0][0]['n']), short(shr[0][0]['n'])))
            else:
                f, n = runtime[0]
                res.bad('%s:%s::%s' % (g, short(rec), fld), loc(f, n), 'member container %s::%s only ever grows while running' % (short(rec), fld))
    f = the_function(ctx, 'core', r'NavigationClientImpl::navigate$')
    r = run_batch(ctx, f, 'A')
    if r['err']:
        res.open('recorded states: %s' % r['err'])
    else:
        state(res, 'states', loc(f), agree(V.size(V.getf(r['this'], 'mNavigationStates')), V.D(1)), 'the recorded debug states are those of the last batch only')
    res.need(10, 'growing member containers')
    return res


# maps indexed with operator[] whose keys come from a bounded set
KEYED = {('PositionEstimatorZone', 'mLogModelParameterA'): 'one entry per level of the map',
         ('PositionEstimatorZone', 'mLogModelParameterB'): 'one entry per level of the map',
         ('NearestTransmitterPositionEstimator', 'm_transmitters'): 'one entry per registered transmitter (the key is looked up first)'}
BUILDERS = ('LevelCollector', 'Level', 'LevelGeometry', 'Radiomap', 'Graph', 'BarriersGeometryBuilder', 'GeoLevel')


def is_map_builder(rec):
    return short(rec).split('<')[0].split('::')[0] in BUILDERS


def resetonly(P, f, runtime):
    """a shrink that only happens in an explicit reset is no bound on growth"""
    return re.search(r'::(reset|reInit|reinit|clear)$', f['n']) is not None and not any(f['id'] == g['id'] for g, n in runtime) and not any(f['id'] in reach(P, [g['id']]) for g, n in runtime)


def member_of_this(e):
    """(field, type) when the lvalue is a (part of a) member of *this, outermost container"""
    e = strip_casts(e)
    while isinstance(e, dict):
        if e.get('k') == 'mem':
            b = strip_casts(e['b'])
            if b.get('k') == 'this':
                return e['f'], e.get('t')
            return None
        return None
    return None


# ---------------------------------------------------------------------------- P28
def ownership(ctx):
    res = Result('ownership', 'every new-expression is owned by a smart pointer or by a raw member its destructor deletes unconditionally; classes owned or deleted through a base have virtual destructors; nothing refers to a released local or temporary')
    for g in GROUPS:
        P = ctx.cur(g)
        poly = {}
        for key, r in P.records.items():
            poly[key] = r
        derived = {}
        for key, r in P.records.items():
            for b in r.get('bases', []):
                bn = b if isinstance(b, str) else (b.get('full') or b.get('n'))
                derived.setdefault(bn, []).append(key)
        # 1. polymorphic bases
        for key, r in sorted(P.records.items()):
            if not r.get('poly') or key not in derived:
                continue
            if virtual_dtor(P, key):
                res.ok('%s has a virtual destructor' % short(key))
            else:
                res.bad('%s:dtor:%s' % (g, short(key)), '%s:%s' % (r.get('file'), r.get('line')), 'polymorphic base class %s has no virtual destructor: destroying a derived object through it skips the derived part' % short(key))
        # 2. new / delete
        for f in P.functions.values():
            if not evaluable(f):
                continue
            news = [n for n in exprs(f) if n['k'] == 'new']
            for n in news:
                how = owner_of(f, n)
                if how is None:
                    res.bad('%s:new:%s' % (g, short(f['n'])), loc(f, n), 'object created with new is not handed to an owner')
                elif how[0] == 'member':
                    rec, fld = how[1], how[2]
                    dt = [d for d in P.functions.values() if d.get('isdtor') and d.get('rec') == rec and d.get('body') is not None and not d.get('implicit')]
                    dels = [m for d in dt for m in exprs(d) if m['k'] == 'delete' and (member_of_this(m['e']) or (None,))[0] == fld]
                    if not any(unconditional(d['body'], m) for d in dt for m in dels):
                        res.bad('%s:delete:%s::%s' % (g, short(rec), fld), loc(f, n), 'member %s::%s is created with new but the destructor of %s does not always delete it' % (short(rec), fld, short(rec)))
                    else:
                        res.ok('%s::%s is created with new and deleted by the destructor' % (short(rec), fld))
                        copies(P, rec, fld, res, g)
                    if not f.get('isctor'):
                        prior = [m for m in exprs(f) if m['k'] == 'delete' and (member_of_this(m['e']) or (None,))[0] == fld]
                        if not prior:
                            res.bad('%s:leak:%s::%s' % (g, short(rec), fld), loc(f, n), 'member %s is overwritten by a new object without deleting the previous one' % fld)
                else:
                    res.ok('new in %s is owned by %s' % (short(f['n']), how[0]))
            for n in exprs(f):
                if n['k'] == 'delete':
                    t = strip_casts(n['e']).get('t') or {}
                    to = recname(t.get('to') or {}) if t.get('k') == 'ptr' else None
                    r = P.records.get(to)
                    if r is not None and to in derived and not virtual_dtor(P, to):
                        res.bad('%s:delete:%s' % (g, short(f['n'])), loc(f, n), 'deletes a derived object through a base without virtual destructor')
                    m = member_of_this(n['e'])
                    if m and not f.get('isdtor') and not reassigned_after(f, n, m[0]):
                        res.bad('%s:dangling:%s' % (g, short(f['n'])), loc(f, n), 'deletes member %s outside the destructor and leaves the pointer dangling' % m[0])
                    elif not m and strip_casts(n['e']).get('k') != 'var':
                        pass
                    else:
                        res.ok()
                # release() of a smart pointer
                if n['k'] == 'mcall' and isinstance(n.get('f'), dict) and re.search(r'(unique_ptr|shared_ptr)<?.*::release$', n['f'].get('n') or ''):
                    res.bad('%s:release:%s' % (g, short(f['n'])), loc(f, n), 'releases ownership of an object')
                if n['k'] == 'mcall' and isinstance(n.get('f'), dict) and (n['f'].get('n') or '').endswith('::get') and re.match(r'std::(unique_ptr|shared_ptr|__shared_ptr)', n['f'].get('n') or ''):
                    pass
            # 3. two owners of one raw pointer: smart pointer constructed from .get() or this or &x
            for n in exprs(f):
                if n['k'] == 'ctor' and re.match(r'std::(shared_ptr|unique_ptr)<', (n.get('f') or {}).get('n') or '') and len(n.get('a') or []) >= 1:
                    a = strip_casts(n['a'][0])
                    at = a.get('t') or {}
                    if at.get('k') == 'ptr' and a.get('k') not in ('new', 'nullptr', 'null'):
                        res.bad('%s:alias:%s' % (g, short(f['n'])), loc(f, n), 'smart pointer takes ownership of a pointer that is owned elsewhere')
            # 4. dangling references
            d = dangling(f)
            if d:
                res.bad('%s:ref:%s' % (g, short(f['n'])), loc(f, d[0]), d[1])
            else:
                res.ok()
        # 5. views stored in members
        for key, r in P.records.items():
            for fl in r.get('fields', []):
                t = fl['t']
                if re.match(r'std::(basic_string_view|span|reference_wrapper)', t.get('n') or ''):
                    res.bad('%s:view:%s::%s' % (g, short(key), fl['n']), '%s:%s' % (r.get('file'), fl.get('line')), 'member keeps a view of storage it does not own')
    res.need(500, 'functions and classes')
    return res


def copies(P, rec, fld, res, g):
    """objects owning through a raw pointer are never copied by value"""
    for f in P.functions.values():
        if not evaluable(f):
            continue
        for n in exprs(f):
            if n['k'] == 'ctor' and isinstance(n.get('f'), dict) and recname(n.get('t') or {}) == rec and (n['f'].get('copy') or any(recname(p) == rec for p in n['f'].get('pt') or [])):
                res.bad('%s:copy:%s' % (g, short(rec)), loc(f, n), 'copies a %s, which owns %s through a raw pointer: both copies would delete it' % (short(rec), fld))
            if n['k'] == 'opcall' and n.get('op') == '=' and recname((n.get('a') or [{}])[0].get('t') or {}) == rec:
                res.bad('%s:copy:%s' % (g, short(rec)), loc(f, n), 'assigns a %s, which owns %s through a raw pointer' % (short(rec), fld))
    res.ok('%s is never copied' % short(rec))


def virtual_dtor(P, key, depth=0):
    r = P.records.get(key)
    if r is None or depth > 8:
        return False
    if r.get('virtdtor') or r.get('vdtor'):
        return True
    for f in P.functions.values():
        if f.get('isdtor') and f.get('rec') == key and f.get('virt'):
            return True
    return any(virtual_dtor(P, b if isinstance(b, str) else (b.get('full') or b.get('n')), depth + 1) for b in r.get('bases', []))


def owner_of(f, new):
    """who receives the result of a new-expression"""
    par = {}

    def link(x, up):
        if isinstance(x, dict):
            me = x
            if x is not up and up is not None:
                par[id(x)] = up
            for v in x.values():
                if isinstance(v, (dict, list)):
                    link(v, me)
        elif isinstance(x, list):
            for v in x:
                link(v, up)
    for c in code(f):
        link(c, None)
    x = new
    while id(x) in par:
        p = par[id(x)]
        k = p.get('k')
        if k == 'ctor' or k in ('mcall', 'opcall', 'call'):
            q = (p.get('f') or {}).get('n', '') if isinstance(p.get('f'), dict) else ''
            if re.match(r'std::(__)?(unique_ptr|shared_ptr)', q) or re.match(r'std::(unique|shared)_ptr', ((p.get('t') or {}).get('n') or '')):
                return ('a smart pointer',)
            return None
        if k in ('assign',):
            m = member_of_this(p['lhs'])
            return ('member', f.get('rec'), m[0]) if m else None
        if k in ('cond', 'cast', 'paren', 'definit', 'cleanups', 'materialize'):
            x = p
            continue
        if k is None and (p.get('f') or p.get('field') or p.get('n')) and 'e' in p and f.get('isctor'):
            return ('member', f.get('rec'), p.get('f') or p.get('field') or p.get('n'))
        if k is None and 'init' in p:   # local variable
            vid = p.get('id')
            if any(n['k'] == 'delete' and strip_casts(n['e']).get('id') == vid and unconditional(f['body'], n) for n in exprs(f)) and \
                    not any(n['k'] == 'return' for n in exprs(f) if True and (n.get('l') or 0) < 0):
                return ('a local that is deleted',)
            for n in exprs(f):
                if n['k'] == 'assign' and strip_casts(n['rhs']).get('id') == vid and strip_casts(n['rhs']).get('k') == 'var':
                    m = member_of_this(n['lhs'])
                    if m:
                        return ('member', f.get('rec'), m[0])
                if n['k'] in ('ctor', 'mcall') and isinstance(n.get('f'), dict) and re.match(r'std::(unique|shared)_ptr', n['f'].get('n') or '') and any(strip_casts(a).get('id') == vid for a in n.get('a') or [] if isinstance(a, dict)):
                    return ('a smart pointer',)
            return None
        if k == 'return':
            r = f.get('ret') or {}
            return ('a smart pointer',) if re.match(r'std::(unique|shared)_ptr', r.get('n') or '') else None
        x = p
    return None


def unconditional(body, node):
    """the statement is executed on every path of the body (a null check of the deleted pointer is transparent)"""
    def go(s):
        if s is node:
            return True
        if isinstance(s, dict):
            k = s.get('k')
            if k == 'block':
                for x in s.get('c') or []:
                    if go(x):
                        return True
                    if any(n.get('k') in ('return', 'throw') for n in walk(x)):
                        return False
                return False
            if k == 'expr':
                return go(s['e']) or strip_casts(s['e']) is node
            if k == 'if' and not s.get('b'):
                c = strip_casts(s['c'])
                txt = [n.get('f') for n in walk(c) if n.get('k') == 'mem']
                tgt = strip_casts(node['e'])
                names = [n.get('f') for n in walk(tgt) if n.get('k') == 'mem'] + [n.get('n') for n in walk(tgt) if n.get('k') == 'var']
                cn = txt + [n.get('n') for n in walk(c) if n.get('k') == 'var']
                neg = any(n.get('k') == 'un' and n.get('op') == '!' for n in walk(c)) or any(n.get('k') == 'bin' and n.get('op') == '==' for n in walk(c))
                if cn and set(cn) <= set(names) and not neg:
                    return go(s['a'])
                return False
            if k == 'delete':
                return s is node
        return False
    return go(body)


def reassigned_after(f, n, fld):
    seen = False
    for x in walk_ordered(f['body']):
        if x is n:
            seen = True
        elif seen and x.get('k') == 'assign':
            m = member_of_this(x['lhs'])
            if m and m[0] == fld:
                return True
    return False


def walk_ordered(x):
    if isinstance(x, dict):
        yield x
        for v in x.values():
            if isinstance(v, (dict, list)):
                yield from walk_ordered(v)
    elif isinstance(x, list):
        for v in x:
            yield from walk_ordered(v)


def dangling(f):
    r = f.get('ret') or {}
    locals_ = {v['id']: v for n in exprs(f) if n['k'] == 'decl' for v in n['v'] if not v.get('static')}
    byval = {p['id'] for p in f['params'] if not p['t'].get('ref')}

    def local_storage(e, depth=0):
        """the lvalue designates storage of this activation"""
        e = strip_casts(e)
        if not isinstance(e, dict) or depth > 20:
            return False
        k = e.get('k')
        if k == 'var':
            if e.get('id') in byval:
                return True
            v = locals_.get(e.get('id'))
            if v is None:
                return False
            if v['t'].get('ref'):
                return bool(v.get('init')) and local_storage(v['init'], depth + 1)
            return True
        if k == 'mem':
            if e.get('arrow'):
                return False
            return local_storage(e['b'], depth + 1)
        if k == 'index':
            bt = (strip_casts(e['b']).get('t') or {})
            return bt.get('k') == 'array' and local_storage(e['b'], depth + 1)
        if k in ('mcall', 'opcall'):
            fn = e.get('f') if isinstance(e.get('f'), dict) else {}
            if (e.get('t') or {}).get('ref') or e.get('lv'):
                pass
            o = e.get('o') if k == 'mcall' else (e.get('a') or [None])[0]
            q = fn.get('n') or ''
            if re.match(r'std::(vector|deque|map|list|array|unordered_map|basic_string)', q) and q.rsplit('::', 1)[-1] in ('operator[]', 'at', 'front', 'back') and o is not None:
                o = strip_casts(o)
                if o.get('k') == 'var' and (locals_.get(o.get('id')) is not None or o.get('id') in byval):
                    return local_storage(o, depth + 1)
                if o.get('k') in ('call', 'mcall') and not retref(o):
                    return True
            return False
        if k in ('call', 'ctor', 'int', 'float', 'bool', 'bin'):
            return not retref(e)
        return False
    if r.get('ref'):
        for n in exprs_top(f):
            if n.get('k') == 'return' and isinstance(n.get('e'), dict) and local_storage(n['e']):
                return n, 'returns a reference to storage that ends with the call'
    if r.get('k') == 'ptr':
        for n in exprs_top(f):
            if n.get('k') == 'return':
                e = strip_casts(n.get('e'))
                if isinstance(e, dict) and e.get('k') == 'un' and e.get('op') == '&' and local_storage(e['e']):
                    return n, 'returns the address of storage that ends with the call'
    # members or statics bound to addresses of locals
    for n in exprs_top(f):
        if n.get('k') == 'assign':
            e = strip_casts(n['rhs'])
            if isinstance(e, dict) and e.get('k') == 'un' and e.get('op') == '&' and local_storage(e['e']) and member_of_this(n['lhs']):
                return n, 'stores the address of a local in a member'
    # local reference bound to part of a temporary
    for v in locals_.values():
        if v['t'].get('ref') and isinstance(v.get('init'), dict):
            e = strip_casts(v['init'])
            if e.get('k') in ('mcall', 'opcall') and (e.get('t') or {}) is not None:
                q = (e.get('f') or {}).get('n') or '' if isinstance(e.get('f'), dict) else ''
                o = e.get('o') if e.get('k') == 'mcall' else (e.get('a') or [None])[0]
                o = strip_casts(o) if o else None
                if o and re.match(r'std::(vector|deque|map|list|array|unordered_map)', q) and q.rsplit('::', 1)[-1] in ('operator[]', 'at', 'front', 'back') and o.get('k') in ('call', 'mcall', 'ctor') and not retref(o) and (o.get('t') or {}).get('k') == 'rec':
                    return dict(l=v.get('line')), 'binds %s to an element of a temporary' % v['n']
    return None


def retref(e):
    f = e.get('f') if isinstance(e.get('f'), dict) else {}
    r = f.get('ret') or f.get('rt') or {}
    if r:
        return bool(r.get('ref'))
    return bool(e.get('lv'))


def exprs_top(f):
    """statements and expressions outside nested lambdas"""
    st = [c for c in code(f) if c]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if x.get('k') == 'lambda':
                continue
            yield x
            st.extend(v for v in x.values() if isinstance(v, (dict, list)))
        elif isinstance(x, list):
            st.extend(x)

def the_function(ctx, g, pat):
    fs = [f for f in ctx.group(g).cur.functions.values() if evaluable(f) and re.search(pat, f['n'])]
    if len(fs) != 1:
        raise AnalysisBroken('%d functions match %s' % (len(fs), pat))
    return fs[0]


def element_type(f):
    """element type of the sequence passed as first argument"""
    return V.elem_type({k: v for k, v in f['params'][0]['t'].items() if k not in ('ref', 'const')})


def messages(pattern):
    """batch of messages of which the k-th is not older (A) or older (L) than those before it, by an
    arbitrary amount; the first one has an arbitrary time.  Letters in lower case are left out."""
    def make(f):
        et = element_type(f)
        out, now = [], None
        for k, c in enumerate(pattern):
            m = V.fromterm(terms.T('nth', terms.T('sym', 'p0', isint=False), terms.const(k), isint=False), et)
            if now is None:
                now = ts = V.getf(m, 'ts')
            else:
                up = c in 'Aa'
                d = terms.L(terms.T('sym', ('gap%d' if up else 'lag%d') % k, isint=True, dom=(0, None) if up else (1, None)))
                ts = V.add(now, d) if up else V.sub(now, d)
                now = ts if up else now
            if c.isupper():
                fs = {n: V.getf(m, n) for n in V.fields(V.reckey(et))}
                fs['ts'] = ts
                out.append(terms.Rec(V.reckey(et), None, fs))
        return V.vec(*out)
    return make


def run_batch(ctx, f, pattern):
    G = ctx.group('core')
    return G.cmp.cur.evalseq(f, G.cmp.opaque_sets('')[1], G.cmp.canon, pattern, messages(pattern))


def agree(x, y, c=TRUE):
    """equality of two values where c holds: True, False or None (not decided)"""
    import relational
    from compare import asdd, outside
    if c is FALSE:
        return True
    p, q = outside(NOT(c), x), outside(NOT(c), y)
    if p is q or V.veq(p, q):
        return True
    if V.taints(p) | V.taints(q):
        return None
    return relational.equal(p, q, blind=relational.iterations(p, V.WEAK - {'cut'}) ^ relational.iterations(q, V.WEAK - {'cut'}))


def holds(c, given=TRUE):
    """does condition c follow from another one"""
    try:
        if implies(given, c):
            return True
    except Blowup:
        return None
    return agree(c, TRUE, given)


def state(res, key, where, ans, text):
    if ans is True:
        res.ok(text)
    elif ans is False:
        res.bad(key, where, 'not so: ' + text)
    else:
        res.open(text)


def batch(ctx):
    res = Result('batch', 'every batch of up to three messages (four in the thorough tier), each on time or late by an arbitrary amount: outputs and recorded states are those of the same batch without its '
                 'late messages, one for each message left; earlier outputs do not depend on later messages; an empty batch leaves the client untouched')
    f = the_function(ctx, 'core', r'NavigationClientImpl::navigate$')
    where, st = loc(f), 'mNavigationStates'
    et = V.elem_type({k: v for k, v in f['ret'].items() if k not in ('ref', 'const')})
    pats = ['A' + ''.join(p) for n in range(0, 4 if ctx.thorough else 3) for p in __import__('itertools').product('AL', repeat=n)]
    if not ctx.thorough:
        pats += ['ALLA', 'AALA']
    r0 = run_batch(ctx, f, '')
    if r0['err']:
        res.open('empty batch: %s' % r0['err'])
    else:
        state(res, 'outputs', where, agree(V.size(r0['ret']), V.D(0)), 'an empty batch has no outputs')
        me = V.fromterm(terms.T('sym', 'this', isint=False), {'k': 'rec', 'n': f['rec']})
        for k in fields_of(r0['this'], None):
            state(res, 'empty', where, agree(V.getf(r0['this'], k), V.getf(me, k)), 'an empty batch leaves %s as it was' % k)
    for p in pats:
        r = run_batch(ctx, f, p)
        if r['err']:
            res.open('batch %s: %s' % (p, r['err']))
            continue
        n = p.count('A')
        state(res, 'outputs', where, agree(V.size(r['ret']), V.D(n)), 'batch %s has %d outputs' % (p, n))
        state(res, 'states', where, agree(V.size(V.getf(r['this'], st)), V.D(n)), 'batch %s records %d states' % (p, n))
        if 'L' in p:
            q = run_batch(ctx, f, p.replace('L', 'l'))
            if q['err']:
                res.open('batch %s: %s' % (p, q['err']))
                continue
            state(res, 'late', where, agree(r['ret'], q['ret']), 'late messages of batch %s have no effect on the outputs' % p)
            for k in fields_of(r['this'], q['this']):
                state(res, 'late', where, agree(V.getf(r['this'], k), V.getf(q['this'], k)), 'late messages of batch %s have no effect on %s' % (p, k))
        elif n > 1:
            q = run_batch(ctx, f, p[:-1])
            if q['err']:
                res.open('batch %s: %s' % (p, q['err']))
                continue
            for i in range(n - 1):
                state(res, 'order', where, agree(V.nth(r['ret'], V.D(i), et), V.nth(q['ret'], V.D(i), et)), 'output %d of batch %s does not depend on the last message' % (i, p))
    return res


def fields_of(a, b):
    ks = set()
    for x in (a, b):
        if isinstance(x, terms.Rec):
            ks |= set(x.f)
    return sorted(ks)


def output(ctx):
    res = Result('output', 'for one arbitrary message: success is reported exactly when a position is available, and level, uncertainty, provider, coordinates and heading of the output are those of that position')
    f = the_function(ctx, 'core', r'NavigationClientImpl::navigate$')
    r = run_batch(ctx, f, 'A')
    where = loc(f)
    if r['err']:
        res.open('one message: %s' % r['err'])
        return res
    et = V.elem_type({k: v for k, v in f['ret'].items() if k not in ('ref', 'const')})
    out = V.nth(r['ret'], V.D(0), et)
    pos = V.getf(r['this'], 'mPosition')
    have = NOT(terms.asbool(V.getf(pos, 'isEmpty')))
    ok = terms.cmpd(V.getf(out, 'status'), V.D(0), 'eq')
    state(res, 'status', where, agree(ok, have), 'the status is OK exactly when a position is available')
    state(res, 'level', where, agree(V.getf(out, 'posLevel'), V.getf(pos, 'levelId'), have), 'the level is that of the position')
    state(res, 'radius', where, agree(V.getf(out, 'posR'), V.getf(pos, 'deviationM'), have), 'the uncertainty is that of the position')
    state(res, 'provider', where, agree(V.getf(out, 'provider'), V.getf(pos, 'provider'), have), 'the provider is that of the position')
    return res


def angle(ctx):
    res = Result('angle', 'the heading of every reported output with a position is the result of the angle normalisation, whatever branch produced it')
    f = the_function(ctx, 'core', r'NavigationClientImpl::navigate$')
    r = run_batch(ctx, f, 'A')
    where = loc(f)
    if r['err']:
        res.open('one message: %s' % r['err'])
        return res
    G = ctx.group('core')
    norms = {i for i, g in G.ref.functions.items() if g['n'].endswith('::to_minus_Pi_Pi')}
    if not norms:
        raise AnalysisBroken('to_minus_Pi_Pi is gone')
    et = V.elem_type({k: v for k, v in f['ret'].items() if k not in ('ref', 'const')})
    out = V.nth(r['ret'], V.D(0), et)
    have = NOT(terms.asbool(V.getf(V.getf(r['this'], 'mPosition'), 'isEmpty')))
    v = terms.care(V.getf(out, 'posOrientation'), have)
    for t in terms.leaves(v):
        if t is terms.DC:
            continue
        if t.op == 'call' and t.args and t.args[0] in norms:
            res.ok('the heading is to_minus_Pi_Pi of an azimuth')
        elif V.taints(terms.L(t)) or hasop(t, ('mu', 'fmod', 'fold', 'cut')):
            res.open('the heading %s is not recognised as normalised' % render(terms.L(t), 160))
        else:
            res.bad('heading', where, 'the reported heading is not normalised: %s' % render(terms.L(t), 300))
    return res


def hasop(t, ops):
    hit = []
    terms.walk(t, lambda x: hit.append(x) if x.op in ops else None)
    return bool(hit)


# ------------------------------------------------------------------ guarded accesses (P08)
PARTIAL_OPS = {'iter': 'dereferences an iterator that may be the end', 'optget': 'reads an empty optional', 'null': 'uses a null pointer',
               'mapat': 'looks up a missing key with at()', 'pop': 'pops an empty container', 'front': 'reads the front of an empty container',
               'back': 'reads the back of an empty container', 'index': 'indexes out of range', 'at': 'at() out of range'}


class Access:
    def __init__(self, ctx, name):
        self.G = G = ctx.group(name)
        self.C = G.cmp
        self.ro, self.co = self.C.opaque_sets('')
        self.short = self.C.short or Shortcut(G.ref, G.cur)
        self.part = {}
        self.memo = {}
        self.total = 0

    def bads(self, which, fid, inline=frozenset()):
        """unproven partial operations of a function: [(kind, bad, ok, event)] or an error text"""
        k = (which, fid, inline)
        if k in self.memo:
            return self.memo[k]
        C = self.C
        if which == 'ref':
            r = C.ref.eval(self.G.ref.functions[fid], self.ro - inline, {})
        else:
            r = C.cur.eval(self.G.cur.functions[fid], self.co - {C.pair[i] for i in inline if i in C.pair}, C.canon)
        if r['err']:
            out = r['err']
        else:
            out, self.total = [], self.total
            for e in r['events']:
                if e['kind'] not in PARTIAL_OPS:
                    continue
                self.total += 1
                try:
                    bad = AND(e['pc'], NOT(e['ok']))
                except Blowup:
                    bad = None
                if bad is not FALSE:
                    out.append((e['kind'], bad, e['ok'], e))
        self.memo[k] = out
        return out

    def partial(self, rid, stack=()):
        """reference function with an unguarded precondition of its own: decided at its callers"""
        if rid in self.part:
            return self.part[rid]
        if rid in stack or len(stack) > 4:
            return False
        f = self.G.ref.functions.get(rid)
        if f is None or not evaluable(f):
            return False
        b = self.bads('ref', rid, self.inlined(rid, stack + (rid,)))
        self.part[rid] = isinstance(b, list) and any(x[1] is not None and not bvs(x[1]) and not V.taints(V.norm(x[1])) for x in b)
        return self.part[rid]

    def inlined(self, rid, stack=()):
        return frozenset(y for y in self.C.calls_ref.get(rid, ()) if y != rid and y in self.C.pair and (self.partial(y, stack) or self.predicate(y)))

    def predicate(self, rid):
        """short test used as a guard (is it there?), seen through"""
        f = self.G.ref.functions.get(rid)
        if f is None or not evaluable(f) or f.get('virt') or (f.get('ret') or {}).get('k') != 'bool' or f.get('method') and not f.get('const'):
            return False
        ns = list(walk(code(f)))
        return len(ns) < 60 and not any(n.get('k') in ('for', 'while', 'do', 'rfor', 'lambda') for n in ns)

    def uncovered(self, rid, extra=frozenset()):
        """-> (number of operations, candidates, undecided texts)"""
        inl = self.inlined(rid) | extra
        for x in extra:
            inl |= self.inlined(x)
            inl |= frozenset(self.C.canon[c] for c in self.C.calls_cur.get(self.C.pair[x], ()) if c in self.C.canon and self.C.canon[c] != x and self.partial(self.C.canon[c]))
        cid = self.C.pair[rid]
        inl |= frozenset(self.C.canon[c] for c in self.C.calls_cur.get(cid, ()) if c in self.C.canon and c != cid and self.partial(self.C.canon[c]))
        R = self.bads('ref', rid, inl)
        n0 = self.total
        Q = self.bads('cur', rid, inl)
        n = self.total - n0
        if isinstance(R, str) or isinstance(Q, str):
            return n, [], ['reference: %s, current: %s' % (R if isinstance(R, str) else 'ok', Q if isinstance(Q, str) else 'ok')]
        free = FALSE
        keys = set()
        for kind, bad, ok, e in R:
            if bad is None:
                continue
            keys.add(okkey(ok))
            if not bvs(bad):
                try:
                    free = OR(free, bad)
                except Blowup:
                    pass
        cand, und = [], []
        for kind, bad, ok, e in Q:
            text = '%s (line %s of %s)' % (PARTIAL_OPS[kind], e['line'], short(e['fn']) if isinstance(e['fn'], str) else '')
            if bad is None:
                if okkey(ok) not in keys:
                    und.append(text)
                continue
            marks = {t.op for t in bvs(bad)}
            if marks:
                if okkey(ok) in keys:
                    continue
            else:
                try:
                    if implies(bad, free):
                        continue
                except Blowup:
                    und.append(text)
                    continue
            if V.taints(V.norm(bad)) or marks - {'fv'}:
                if okkey(ok) not in keys:
                    und.append(text)
                continue
            cand.append((kind, bad, ok, e, text))
        return n, cand, und

    def confirm(self, rid, extra=frozenset(), depth=0):
        """candidates that no caller guards"""
        n, cand, und = self.uncovered(rid, extra)
        if not cand:
            return []
        if self.G.entry(rid) or depth >= 3:
            return cand
        out = []
        for c in sorted(self.G.callers.get(rid, ())):
            if evaluable(self.G.ref.functions[c]) and c in self.C.pair:
                out += self.confirm(c, extra | {rid}, depth + 1)
        return out


def okkey(ok):
    return terms._ok(V.norm(ok)) if not isinstance(ok, (terms.Term, terms.DD)) else ok.ok


def access(ctx):
    res = Result('access', 'every element, iterator, map entry, pointer and optional access is implied by the condition under which it is reached; '
                           'preconditions a function leaves to its callers are decided at the callers, and accepted only where the reviewed reference has them too')
    ops = 0
    for g in GROUPS:
        A = Access(ctx, g)
        G, C = A.G, A.C
        for rid in sorted(C.pair):
            rf = G.ref.functions[rid]
            if not evaluable(rf) or rf.get('implicit') or rf.get('isdtor') or is_example(rf):
                continue
            cf = G.cur.functions[C.pair[rid]]
            if A.short.same(rf, cf) and not ctx.thorough:
                res.ok('%s: %s - same operations and conditions as the reviewed reference' % (g, short(rf['n'])))
                continue
            n, cand, und = A.uncovered(rid)
            ops += n
            if cand:
                cand = A.confirm(rid)
            if cand:
                for kind, bad, ok, e, text in cand[:3]:
                    res.bad('%s:%s:%s' % (g, short(rf['n']), kind), '%s (line %s)' % (G.where(rid), e['line']),
                            '%s %s' % (short(rf['n']), text), [dict(component='reached while', reference='excluded', current=render(bad))])
            elif und:
                for t in und[:3]:
                    res.open('%s: %s: %s' % (g, short(rf['n']), t))
            else:
                res.ok('%s: %s - %d partial operations guarded' % (g, short(rf['n']), n))
    res.notes.append('%d partial operations re-evaluated' % ops)
    res.need(200, 'functions')
    return res


ORIENTATION = r"(^|::)(Quaternion|Vector3d)::|Orientation::Orientation$|to_minus_Pi_Pi$|updateQuaternion$|ComplementaryFilter::get|(^|::)operator[-+*/]=?$"
STEPS = r"(^|::)Vector3d::|Step::Step$|Magnitude::Magnitude$|Pedometer::calculate(Steps|StepLength)$|(^|::)operator[-+*/]=?$"


def siblings(ctx, res, g, pat, floor):
    """the library's and the standalone copy of each function, compared with each other"""
    A, B = ctx.group('core'), ctx.group(g)
    c = Comparison(A.cur, B.cur, limit=30)
    for i in sorted(c.pair):
        f, h = A.cur.functions[i], B.cur.functions[c.pair[i]]
        if not evaluable(f) or not evaluable(h) or f.get('implicit') or f.get('file') == h.get('file') or not re.search(pat, f['n']):
            continue
        st = c.compare(i)
        name = short(f['n'])
        if st == EQ:
            res.ok('%s: %s and %s compute the same values' % (name, loc(f), loc(h)))
            continue
        mine = []
        for G, k in ((A, i), (B, c.pair[i])):
            r = G.cmp.canon.get(k)
            mine.append(G.cmp.compare(r) if r else UNK)
        if st == DIFF and DIFF in mine and UNK not in mine:
            d = c.detail.get(i)
            d = (d.get('graph') if isinstance(d, dict) else d) or []
            res.bad('%s:%s' % (g, name), loc(f) if mine[0] == DIFF else loc(h), '%s differs between the library and the standalone copy in %s' % (name, ', '.join(x[0] for x in d)[:200]),
                    [dict(component=k, reference=render(x), current=render(y)) for k, x, y in d[:3]])
        else:
            res.open('%s: the two copies are no longer comparable: %s' % (name, str(c.why.get(i))[:150]))
    res.need(floor, 'pairs of functions')
    return res


def siblings_orientation(ctx):
    return siblings(ctx, Result('siblings_orientation', 'the vector and quaternion operations and the parts of the orientation filter that do not depend on the message layout have the same value graphs in the library and in the standalone copy'),
                    'complementary_filter', ORIENTATION, 30)


def siblings_pedometer(ctx):
    return siblings(ctx, Result('siblings_pedometer', 'the vector operations and the peak and step-length rules have the same value graphs in the library and in the standalone copy'),
                    'pedometer', STEPS, 15)


def defaults(ctx):
    res = Result('defaults', 'every setting that is left unset has its documented value')
    for g in ('core',):
        G = ctx.group(g)
        R, C = G.cmp.ref, G.cmp.cur
        for key in sorted(set(G.ref.records) & set(G.cur.records)):
            r = G.ref.records[key]
            if key not in [NS + s for s in SETTINGS]:
                continue
            fs = [f['n'] for f in r.get('fields', []) if f['t'].get('k') in ('int', 'float', 'bool', 'enum')]
            if not fs or not any(r.get(k) for k in ('hasImplicitDefault', 'agg')) and not any(c.get('default') for c in r.get('ctors', [])):
                continue
            x, y = R.default(key), C.default(key)
            for f in fs:
                p, q = (v.f.get(f) if isinstance(v, terms.Rec) else None for v in (x, y))
                if p is None or q is None:
                    continue                             # renamed or removed: the functions using it are compared
                a = agree(p, q)
                state(res, '%s::%s' % (short(key), f), '%s:%s' % (G.cur.records[key].get('file'), next((n.get('line') for n in G.cur.records[key]['fields'] if n['n'] == f), '?')), a,
                      '%s::%s is %s unless set%s' % (short(key), f, render(p, 40), '' if a else ', here ' + render(q, 40)))
    res.need(70, 'fields')
    return res

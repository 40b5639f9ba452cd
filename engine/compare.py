"""Equivalence of the functions of two programs (the reference and the current tree),
decided bottom-up on their value graphs."""
import json
import re
import signal
import sys
import time

import relational
import terms
import values as V
from ev import strip, TYTAB
from expr import Eval
from program import AnalysisBroken
from terms import Blowup, DD, DDC, L, Rec, T, AND, NOT, OR, FALSE, TRUE, bvs, implies, walk
from values import RECORDS, TYPES, ite, norm, veq, taints

sys.setrecursionlimit(30000)


class Timeout(Exception):
    pass


START = time.time()
BUDGET = [260]      # seconds after which evaluations are given only a little time each


def _alarm(*a):
    raise Timeout()


def evaluable(f):
    if f.get('deletedfn') or f.get('main'):
        return False
    return f.get('body') is not None


class Side:
    """one program and its evaluation results"""

    def __init__(self, prog, limit=25):
        self.prog = prog
        self.limit = limit
        self.memo = {}
        self.spent = 0.0

    def activate(self):
        RECORDS.clear()
        RECORDS.update(self.prog.records)

    def evalseq(self, fn, opaque, canon, name, make):
        """evaluation with the first argument given, everything else symbolic"""
        return self.eval(fn, opaque, canon, (name, make))

    def default(self, key):
        """value of a default-constructed object of a record type"""
        self.activate()
        return CEval([self.prog], set(), {}, None).construct_default({'k': 'rec', 'n': key})

    def eval(self, fn, opaque, canon, seq=None, again=False):
        key = (fn['id'], frozenset(opaque), seq if not isinstance(seq, tuple) else seq[0])
        if key in self.memo and not (again and self.stale(self.memo[key])):
            return self.memo[key]
        self.activate()
        E = CEval([self.prog], opaque, canon, fn['id'])
        signal.signal(signal.SIGALRM, _alarm)
        t = time.time()
        left = BUDGET[0] - (t - START)
        signal.alarm(int(min(self.limit if self.spent < self.limit * 4 else max(5, self.limit // 6), max(5, left))))
        begun = terms.UPGRADES[0]
        try:
            if seq is not None:
                E.instance = True
                if isinstance(seq, tuple):
                    args = instance(fn, FAMILIES['0'], E)[0]
                    args[0] = seq[1](fn)
                    r = E.run(fn, args, None)
                else:
                    V.INSTANCE[0] = FAMILIES[seq]
                    V.KEYS[0] = getattr(FAMILIES[seq], 'keys', None)
                    r = E.run(fn, *instance(fn, FAMILIES[seq], E))
            else:
                r = E.run(fn)
            r['err'] = None
        except Timeout:
            r = dict(err='timeout')
        except Blowup as x:
            r = dict(err='size limit: %s' % x)
        except RecursionError:
            r = dict(err='recursion limit')
        except Exception as x:
            r = dict(err='unsupported: %s: %s' % (type(x).__name__, x))
        finally:
            signal.alarm(0)
            V.INSTANCE[0] = V.KEYS[0] = None
        r['wall'] = time.time() - t
        self.spent += r['wall'] if r['err'] else 0
        r['unknown'] = dict(E.unknown)
        r['inlined'] = set(E.inlined) - {fn['id']}
        r['opaqued'] = set(E.opaqued)
        r['starts'] = E.starts
        r['events'] = E.events
        r['stamp'] = terms.UPGRADES[0] if begun == terms.UPGRADES[0] else -1
        self.memo[key] = r
        return r

    def stale(self, r):
        """was the evaluation done before the type of some term became known"""
        return not r['err'] and r['stamp'] != terms.UPGRADES[0]


def nested(t):
    hit = []
    if t is not None:
        walk(t, lambda u: hit.append(u) if u.op in ('nth', 'mget') else None)
    return bool(hit)


# sizes of the containers that are inputs: all the same, or outer and inner ones different
# (more are made up for the constants and containers of the functions compared)
FAMILIES = {'0': lambda t: 0, '1': lambda t: 1, '2': lambda t: 2, '3': lambda t: 3,
            '2.0': lambda t: 0 if nested(t) else 2, '1.2': lambda t: 2 if nested(t) else 1}
BASIC = list(FAMILIES)


def uniform(k):
    FAMILIES.setdefault(str(k), lambda t: k)
    return str(k)


def inner(k):
    """one element with k elements inside"""
    key = '1.%d' % k
    FAMILIES.setdefault(key, lambda t: k if nested(t) else 1)
    return key


def apart(name, k, n):
    """one container of its own size"""
    key = '%s=%d,%d' % (name.key[:60] if len(name.key) < 60 else name.fk, k, n)
    FAMILIES.setdefault(key, lambda t: k if t is name else n)
    return key


def pinned(family, pins):
    """the same with some integers that are inputs known"""
    key = family + '; ' + ', '.join('%s=%d' % (t.key[:60], v) for t, v in pins)
    if key not in FAMILIES:
        f = FAMILIES[family]
        FAMILIES[key] = lambda t: f(t)
        FAMILIES[key].pins = {t.key: v for t, v in pins}
    return key


def keyed(family, **how):
    """the same with the identifiers of some types all equal or pairwise different"""
    key = family + '; ' + ', '.join('%s %s' % x for x in sorted(how.items()))
    if key not in FAMILIES:
        f = FAMILIES[family]
        FAMILIES[key] = lambda t: f(t)
        FAMILIES[key].keys = how
    return key


def landmarks(diffs, odd):
    """small integers that integer quantities are compared with"""
    side = [set(), set()]
    for k, x, y in diffs or []:
        for i, v in enumerate((x, y)):
            if v is None:
                continue
            seen, st = set(), [norm(v)]
            while st:
                u = st.pop()
                if id(u) in seen:
                    continue
                seen.add(id(u))
                if isinstance(u, DD):
                    if u.var is None:
                        st.append(u.term)
                    else:
                        if odd or counted(u.var):
                            for b, _ in u.breaks:
                                if b.denominator == 1 and 3 <= abs(b) <= 128:
                                    side[i].add(abs(int(b)))
                        st.append(u.var)
                        st.extend(u.kids)
                elif isinstance(u, Rec):
                    st.extend(u.f.values())
                    st.append(u.base)
                elif isinstance(u, terms.Term):
                    st.extend(u.args)
                elif isinstance(u, tuple):
                    st.extend(u)
    return side[0] ^ side[1] if odd else side[0] | side[1]


def counted(t):
    hit = []
    walk(t, lambda u: hit.append(u) if u.op == 'size' else None)
    return bool(hit)


def inputs(diffs):
    """containers that are inputs, by the sizes mentioned"""
    out = {}

    def f(u):
        if u.op == 'size' and isinstance(u.args[0], terms.Term) and u.args[0].op in ('sel', 'sym') and not nested(u.args[0]):
            out[u.args[0].key] = u.args[0]
    for k, x, y in diffs or []:
        for v in (x, y):
            if v is not None:
                walk(norm(v), f)
    return [out[k] for k in sorted(out)]

UB = ('iter', 'front', 'back', 'index', 'pop', 'optget', 'null', 'div', 'size')


def undefined(r):
    """condition under which an evaluation reads what is not there (its result is then arbitrary)"""
    u = FALSE
    for e in r['events']:
        if e['kind'] in UB:
            try:
                if bvs(e['pc']) or bvs(e['ok']) or implies(e['pc'], e['ok']):
                    continue
                u = OR(u, AND(e['pc'], NOT(e['ok'])))
            except Blowup:
                return u
    return u


OUTSIDE = L(T('outside', isint=False))


def asdd(x):
    if isinstance(x, DD):
        return x
    x = norm(x)
    return x if isinstance(x, DD) else L(T('box', x)) if isinstance(x, Rec) else L(x)


def outside(u, x):
    """value with everything inside the region u made alike"""
    return ite(u, OUTSIDE, asdd(x))


SEQ = {'std::vector', 'std::deque', 'std::list'}


def seqtype(t):
    return isinstance(t, dict) and t.get('k') == 'rec' and t.get('n') in SEQ


def sequences(fn, side):
    """does the function take sequences (itself, in its object, or in its record arguments)"""
    side.activate()
    ts = [p['t'] for p in fn['params']]
    if fn.get('rec') and fn.get('method') and not fn.get('static') and not fn.get('isctor'):
        ts.append(TYPES.get(fn['rec']) or {'k': 'rec', 'n': fn['rec']})
    for t in ts:
        t = noref(t)
        if seqtype(t):
            return True
        if t.get('k') == 'rec' and any(seqtype(ft) for ft in (V.fields(V.reckey(t)) or {}).values()):
            return True
    return False


def noref(t):
    return {k: v for k, v in t.items() if k not in ('ref', 'const')} if t.get('ref') else t


def concrete(t, name, n, depth=2):
    """symbolic value of type t whose sequences have n elements (None: nothing to fix)"""
    t = noref(t)
    if seqtype(t):
        et = V.elem_type(t)
        n = n(name)
        return V.vec(*[V.fromterm(T('nth', name, V.const(i), isint=et.get('k') in ('int', 'bool', 'enum')), et) for i in range(n)])
    if t.get('k') == 'rec' and depth:
        fs = V.fields(V.reckey(t)) or {}
        f = {}
        pins = getattr(n, 'pins', None)
        for k, ft in fs.items():
            if pins and ft.get('k') == 'int':
                s = V.fromterm(T('sel', name, k, isint=True, dom=(0, None) if ft.get('u') else None), ft)
                if s.term is not None and s.term.key in pins:
                    f[k] = V.D(pins[s.term.key])
            elif ft.get('k') == 'rec':
                c = concrete(ft, T('sel', name, k), n, depth - 1)
                if c is not None:
                    f[k] = c
        if f:
            return Rec(V.reckey(t), name, f)
    return None


def instance(fn, n, E):
    args = []
    for i, p in enumerate(fn['params']):
        t = noref(p['t'])
        s = T('sym', 'p%d' % i, isint=t.get('k') in ('int', 'bool', 'enum'),
              dom=(0, 1) if t.get('k') == 'bool' else ((0, None) if t.get('k') == 'int' and t.get('u') else None))
        c = concrete(t, s, n)
        args.append(c if c is not None else V.fromterm(s, t))
    this = None
    if fn.get('rec') and fn.get('method') and not fn.get('static') and not fn.get('isctor'):
        this = concrete(TYPES.get(fn['rec']) or {'k': 'rec', 'n': fn['rec']}, T('sym', 'this'), n)
    return args, this


class CEval(Eval):
    def __init__(self, progs, opaque, canon, me):
        Eval.__init__(self, progs, opaque=lambda f: f['id'] in opaque and f['id'] != me)
        self.canon = canon

    def callkey(self, f):
        return self.canon.get(f['id'], f['id'])


SHOWN = re.compile(r'shown for containers of size (.+)\)$')
EQ, DIFF, UNK = 'equal', 'different', 'undecided'


class Comparison:
    """status of every reference function in the current program"""

    def __init__(self, ref, cur, names=None, limit=25):
        self.ref, self.cur = Side(ref, limit), Side(cur, limit)
        self.pair = {}      # ref id -> cur id
        self.canon = {}     # cur id -> ref id
        self.match()
        self.tinies = {}
        self.status = {}
        self.why = {}
        self.detail = {}
        self.calls_ref = {i: callees(f) for i, f in ref.functions.items()}
        self.calls_cur = {i: callees(f) for i, f in cur.functions.items()}

    def match(self):
        R, C = self.ref.prog, self.cur.prog
        for i, f in R.functions.items():
            if i in C.functions and bool(C.functions[i].get('body') is not None) == bool(f.get('body') is not None):
                self.pair[i] = i
        used = set(self.pair.values())
        for i, f in R.functions.items():
            if i in self.pair or f.get('body') is None:
                continue
            c = [g for g in C.byname.get(f['n'], []) if g['id'] not in used and g.get('body') is not None and len(g['params']) == len(f['params'])]
            r = [g for g in R.byname.get(f['n'], []) if g['id'] not in self.pair and g.get('body') is not None and len(g['params']) == len(f['params'])]
            if len(c) == 1 and len(r) == 1:
                self.pair[i] = c[0]['id']
                used.add(c[0]['id'])
        self.canon = {c: r for r, c in self.pair.items()}

    # ------------------------------------------------------------------
    def compare(self, rid):
        """status of the pair, its differing helpers inlined"""
        if rid in self.status:
            return self.status[rid]
        self.status[rid] = EQ   # recursion: assume (coinduction)
        st, why, det = self._compare(rid)
        self.status[rid], self.why[rid], self.detail[rid] = st, why, det
        return st

    def opaque_sets(self, rid, all_opaque=False):
        """callees treated as symbols: the common ones that are equal"""
        ro, co = set(), set()
        for r, c in self.pair.items():
            f = self.ref.prog.functions[r]
            if f.get('body') is None:
                continue
            ro.add(r)
            co.add(c)
        return ro, co

    def reach(self, calls, i, stop):
        seen, todo = set(), [i]
        while todo:
            x = todo.pop()
            for y in calls.get(x, ()):
                if y in seen or y == i:
                    continue
                seen.add(y)
                if y not in stop:
                    todo.append(y)
        return seen

    def _compare(self, rid):
        cid = self.pair.get(rid)
        rf = self.ref.prog.functions[rid]
        if cid is None:
            return UNK, 'the function no longer exists', None
        cf = self.cur.prog.functions[cid]
        ro, co = self.opaque_sets(rid)
        # callee statuses first
        bad = set()
        for x in self.reach(self.calls_ref, rid, set()) & set(self.pair):
            pass
        for y in sorted(self.calls_ref.get(rid, ()) | {self.canon.get(c) for c in self.calls_cur.get(cid, ())} - {None}):
            if y in self.pair and self.ref.prog.functions[y].get('body') is not None and y != rid:
                if self.compare(y) != EQ:
                    bad.add(y)
        # helpers behind functions that exist on one side only
        for y in self.reach(self.calls_cur, cid, set(self.canon)):
            r = self.canon.get(y)
            if r and r != rid and self.ref.prog.functions[r].get('body') is not None and self.compare(r) != EQ:
                bad.add(r)
        for y in self.reach(self.calls_ref, rid, set(self.pair)):
            if y in self.pair and y != rid and self.ref.prog.functions[y].get('body') is not None and self.compare(y) != EQ:
                bad.add(y)
        if bad:
            # transitively inline the differing ones
            inl = set(bad)
            for y in list(bad):
                for z in self.reach(self.calls_ref, y, set()) | {self.canon.get(q) for q in self.reach(self.calls_cur, self.pair[y], set())}:
                    if z in self.status and self.status[z] != EQ:
                        inl.add(z)
            st = self.cmp(rf, cf, ro - inl, co - {self.pair[y] for y in inl if y in self.pair})
            if st[0] == DIFF:
                st = self.seethrough(st, rf, cf, ro - inl, co - {self.pair[y] for y in inl if y in self.pair})
            if st[0] == EQ:
                return st
            st2 = (EQ, '', None) if self.unchanged(rf, cf) else self.cmp(rf, cf, ro, co)
            if st2[0] == DIFF:
                st2 = self.seethrough(st2, rf, cf, ro, co, inl)
            if st2[0] == EQ:
                return (st[0], 'through ' + ', '.join(sorted(self.ref.prog.functions[y]['n'].split('::')[-1] for y in bad)) + ': ' + st[1],
                        dict(inherited=sorted(bad), graph=st[2]))
            return st2 if st2[0] == DIFF else (UNK, st2[1], dict(graph=st2[2], mixed=sorted(bad)))
        st = self.cmp(rf, cf, ro, co)
        return st if st[0] != DIFF else self.seethrough(st, rf, cf, ro, co)

    def tiny(self, r):
        """accessors and other short straight-line helpers"""
        if r not in self.tinies:
            self.tinies[r] = r in self.pair and short(self.ref.prog.functions[r], self.ref.prog) and short(self.cur.prog.functions[self.pair[r]], self.cur.prog)
        return self.tinies[r]

    def unchanged(self, rf, cf):
        return False

    def seethrough(self, st, rf, cf, ro, co, keep=frozenset()):
        """a difference in terms of helper calls: are the values still different with the helpers inlined"""
        inl = set()
        for rnd in range(3):
            one, two = self.called(st[2], 1), self.called(st[2], 2)
            skip = inl | keep | {rf['id']}
            odd = (one.keys() ^ two.keys()) - skip                 # helpers only one of the two programs calls
            new = odd or {i for i in (one.keys() | two.keys()) - skip if one[i] != two[i]} or (one.keys() | two.keys()) - skip
            if not new:
                return st
            inl |= new
            shown = SHOWN.search(st[1])
            x = self.cmp(rf, cf, ro - inl, co - {self.pair[i] for i in inl}, shown and shown.group(1))
            if x[0] == EQ:
                return EQ, 'value graphs agree with %d helpers inlined' % len(inl), None
            if x[0] == UNK:
                if one == two and shown and getattr(FAMILIES.get(shown.group(1)), 'keys', None):
                    return st                   # the very same calls on both sides
                return st if not odd and (x[2] is None or 'containers of size : ' in x[1]) else (UNK, st[1] + '; with helpers inlined: ' + x[1], x[2])
            st = x
        return st

    def called(self, diffs, sides=3):
        """reference ids of the opaque helpers in values that differ (1: of the reference, 2: of the current program), with the calls"""
        out = {}

        def f(t):
            if t.op == 'call' and isinstance(t.args[0], str) and t.args[0] in self.pair:
                g = self.ref.prog.functions[t.args[0]]
                if g.get('body') is not None and not self.ref.prog.overrides.get(t.args[0]) and not self.cur.prog.overrides.get(self.pair[t.args[0]]):
                    out.setdefault(t.args[0], set()).add(t)
        for k, x, y in diffs or []:
            for v in (x if sides & 1 else None, y if sides & 2 else None):
                if v is not None:
                    walk(norm(v), f)
        return out

    def both(self, rf, cf, ro, co, seq=None):
        """evaluations and their comparison, repeated when types became known meanwhile"""
        for again in (False, True, True):
            a = self.ref.eval(rf, ro, {}, seq, again)
            b = self.cur.eval(cf, co, self.canon, seq, again)
            if a['err'] or b['err']:
                return UNK, 'reference: %s, current: %s' % (a['err'], b['err']), None, True
            t = time.monotonic()
            relational.DEADLINE[0] = t + (1.5 * relational.PER_CALL if time.time() - START < BUDGET[0] else 2)
            st = compare_results(a, b, rf, cf)
            if st[0] == EQ or a['wall'] + b['wall'] + time.monotonic() - t > 20 or not self.ref.stale(a) and not self.cur.stale(b):
                break
        return st + (False,)

    def near(self, r, rf):
        """a helper of the same file that works on containers"""
        f = self.ref.prog.functions.get(r) or {}
        return '@' in r and r.rsplit('@', 1)[-1] == str(rf.get('file', '')) and evaluable(f) and any(
            noref(p['t']).get('n') in V.CONT for p in f['params'])

    def cmp(self, rf, cf, ro, co, hint=None):
        st = self.both(rf, cf, ro, co)
        if st[3]:
            return st[:3]
        st = st[:3]
        if st[0] == EQ or st[0] == DIFF and not st[1].startswith(LOOPS):
            return st
        # the same functions on inputs whose containers have a fixed number of (symbolic) elements
        seen, left = [], False
        tiny = {r for r in ro if self.tiny(r)}
        ro0, co0 = ro, co
        ro, co = ro - tiny, co - {self.pair[r] for r in tiny}
        t0 = time.time()
        more = None
        todo = ([hint] if hint in FAMILIES else []) + [q for q in BASIC if q != hint]
        starts = {k: t for side, f, o, n in ((self.ref, rf, ro0, {}), (self.cur, cf, co0, self.canon)) for k, t in side.eval(f, o, n).get('starts', {}).items()}
        ins = inputs(st[2])
        if starts and 1 <= len(ins) <= 6:
            # loops over the end of a container: one element
            ks = sorted(landmarks(st[2], True) | landmarks(st[2], False))[:3]
            todo = [q for q in todo if q == hint] + [pinned(apart(c, k, 1), [(t, k - 1) for _, t in sorted(starts.items())])
                                                    for k in dict.fromkeys([2] + [x for q in ks for x in (q, q + 1)]) if 2 <= k <= 12 for c in ins] + [q for q in todo if q != hint]
        # maps by identifiers: the identifiers of the inputs different, those of reference points the same
        near = {r for r in ro if self.near(r, rf)} if 1 <= len(ins) <= 3 and keyedmaps(rf) else None
        if near is not None:
            ks = sorted(k for k in landmarks(st[2], True) | landmarks(st[2], False) if 2 <= k <= 4)
            rest = todo
            todo = [keyed(apart(c, k, 1), ReferencePointId='same', TransmitterId='apart')
                    for k in dict.fromkeys([2, 3] + [x for q in ks for x in (q - 1, q)]) for c in ins]
            todo += [keyed(apart(c, k, 1), ReferencePointId='same', TransmitterId='apart', first='unknown') for k in (2, 3) for c in ins]
            todo += [q for q in rest if q not in todo]
        while todo:
            n = todo.pop(0)
            if getattr(FAMILIES[n], 'keys', None):
                x = self.both(rf, cf, ro - near, co - {self.pair[r] for r in near}, n)
            else:
                x = self.both(rf, cf, ro, co, n)
            if not todo and more is None:
                # nothing so far: sizes around the constants, containers of different sizes
                ks = sorted(landmarks(st[2], True))[:2] + sorted(landmarks(st[2], False))[:3]
                more = [inner(q) for k in ks for q in (k, k + 1) if 2 <= q <= 4] + [uniform(q) for k in ks for q in (k, k + 1)]
                if 1 <= len(ins) <= 6:
                    more += [apart(c, k, 2) for c in ins for k in (0, 1)] + [apart(c, 3, 1) for c in ins]
                todo += [q for q in dict.fromkeys(more) if q not in BASIC]
            if not x[3] and x[0] == DIFF and not x[1].startswith(LOOPS):
                return DIFF, x[1] + ' (shown for containers of size %s)' % n, x[2]
            left = left or (n in BASIC if x[3] else x[0] != EQ)
            seen.append(n if not x[3] else n + ' (given up)')
            if todo and (time.time() - t0 > 90 or time.time() - START > BUDGET[0] + 30):
                left = left or more is None
                break
        if st[0] == DIFF:
            if left and st[1].startswith(LOOPS + ' canonical'):
                return DIFF, st[1].split(': ', 1)[1], st[2]
            return UNK, '%s; containers of size %s: %s' % (st[1], ', '.join(seen), 'not all decided' if left else 'no difference'), st[2]
        return st


def keyedmaps(f):
    s = json.dumps(f.get('body'))
    return bool(re.search(r'"n": "std::(unordered_)?(multi)?map"', s)) and 'ReferencePointId' in s and 'TransmitterId' in s


LOOPSTMT = {'for', 'rfor', 'while', 'do'}


def short(f, prog):
    """accessors of objects with containers, and the like: a few expressions, no loops"""
    if f.get('virt') or f.get('overrides') or f.get('body') is None or not f.get('rec'):
        return False
    rec = prog.records.get(f['rec']) or {}
    if not any(fd['t'].get('k') == 'rec' and str(fd['t'].get('n', '')).startswith('std::') for fd in rec.get('fields', [])):
        return False
    n = [0]

    def w(x):
        if isinstance(x, dict):
            if 'k' in x and x['k'] not in ('rec', 'float', 'ptr', 'bool'):
                n[0] += 1
            if x.get('k') in LOOPSTMT or x.get('k') == 'lambda':
                n[0] += 1000
            for k, v in x.items():
                if k not in ('t', 'f', 'rec') and isinstance(v, (dict, list)):
                    w(v)
        elif isinstance(x, list):
            for v in x:
                w(v)
    w(f.get('body'))
    return n[0] <= 20


def callees(f):
    out = set()

    def w(x):
        if isinstance(x, dict):
            g = x.get('f')
            if isinstance(g, dict) and g.get('id') and g.get('inroot'):
                out.add(g['id'])
            for v in x.values():
                if isinstance(v, (dict, list)):
                    w(v)
        elif isinstance(x, list):
            for v in x:
                w(v)
    w(f.get('body'))
    w(f.get('inits'))
    return out


def components(r):
    out = {}
    if r['ret'] is not None:
        comps('ret', r['ret'], out)
    if r['this'] is not None:
        comps('this', r['this'], out)
    for i, p in enumerate(r['params']):
        comps('p%d' % i, p, out)
    out['completes'] = r.get('pc', TRUE)
    return out


def comps(name, v, out):
    out[name] = v


def drop_extra(v, key, rec):
    return v


# library functions without a model that another one of the kind can only replace with a different meaning;
# any other one that appears on the current side only may be a new spelling of the old value
MEANT = set('within covered_by intersects disjoint touches overlaps crosses equals distance comparable_distance area length '
            'perimeter centroid envelope return_envelope buffer convex_hull correct append simplify union_ intersection difference '
            'at get_to get strcmp strncmp getline parse key items is_open'.split())


def compare_results(a, b, rf, cf):
    ca, cb = components(a), components(b)
    diffs = []
    for k, x in ca.items():
        if x is DDC and cb.get(k) is DDC and not (k == 'ret' and (rf.get('ret') or {}).get('k', 'void') == 'void'):
            return UNK, '%s has no modelled value' % k, None
    for k in ca:
        if k not in cb:
            if ca[k] is not None:
                diffs.append((k, ca[k], None))
            continue
        x, y = ca[k], cb[k]
        if k == 'this' or k == 'ret':
            dl = fielddiff(k, x, y)
            diffs += dl
        elif not veq(x, y):
            diffs.append((k, x, y))
    if not diffs:
        return EQ, '', None
    u = undefined(a)
    if u is TRUE:
        return UNK, 'the reference reads missing elements on every path', None
    if u is not FALSE:
        try:
            m = [(k, x, y) if x is None or y is None else (k, outside(u, x), outside(u, y)) for k, x, y in diffs]
            diffs = [(k, p, q) for k, p, q in m if p is None or q is None or not veq(p, q)]
        except Blowup:
            pass
        if not diffs:
            return EQ, 'equal wherever the elements read exist', None
    tainted, weak, canonical, strong, open_, left = set(), [], [], [], [], []
    for k, x, y in diffs:
        if y is None:
            tainted.add('missing ' + k)
            left.append((k, x, y))
            continue
        nx, ny = norm(x), norm(y)
        t = taints(ny) | taints(nx) | {o for o in V.libops(ny) - V.libops(nx) if o.startswith('lib:') and o[4:] not in MEANT}
        if t:
            tainted |= t
            left.append((k, x, y))
            continue
        r = relational.equal(nx, ny)
        if r is True:
            continue
        left.append((k, x, y))
        if r is None:
            open_.append(k)
            continue
        # is there a difference outside of everything iterated
        for ops, where in ((ITER, strong), (WEAK, canonical)):
            blind = relational.iterations(nx, ops) | relational.iterations(ny, ops)
            if not blind or relational.equal(nx, ny, blind=blind) is False:
                where.append(k)
                break
        else:
            (strong if keysdiffer(nx, ny) else weak).append(k)
    if not left:
        return EQ, 'equal region by region', None
    names = ', '.join(k for k, _, _ in left)
    if strong:
        return DIFF, names, [x for x in left if x[0] in strong] + [x for x in left if x[0] not in strong]
    if tainted:
        return UNK, '%s differ but use unmodelled constructs (%s)' % (names, '; '.join(sorted(tainted))[:200]), left
    if canonical:
        return DIFF, LOOPS + ' canonical: ' + names, [x for x in left if x[0] in canonical] + [x for x in left if x[0] not in canonical]
    if weak:
        return DIFF, LOOPS + ': ' + names, left
    return UNK, '%s differ, but equality region by region was not decided within the budget' % names, left


WEAK = V.WEAK - {'cut'}
ITER = WEAK | V.BINDERS - {'lambda'}
LOOPS = 'different inside loops'
PROBE = T('sym', 'key')


class NoKeys(Exception):
    pass


def keysof(v):
    """does the map (or set) have an arbitrary key: entry-wise loops keep the keys"""
    def f(t):
        if t.op == 'mput':
            return OR(V.keyeq(V._cl(t.args[1]), L(PROBE)), f(t.args[0]))
        if t.op == 'fold':
            outs, bodies = t.args[0], t.args[1]
            frs, mm = V.open_(t)
            body = V.subst(bodies, mm)
            if len(outs) != 2 or len(body) != 1:
                raise NoKeys()
            for leaf in terms.leaves(V._cl(body[0])):
                while leaf.op == 'upd' and isinstance(leaf.args[2], Rec) and leaf.args[2].base is not None and 'first' not in leaf.args[2].f:
                    leaf = leaf.args[0]
                if leaf not in frs:
                    raise NoKeys()
            return keysof(V._cl(outs[1]))
        if t.op in ('sel', 'sym', 'vec'):
            return V.has(L(t), L(PROBE))
        raise NoKeys()
    return V.vmap(v, f) if isinstance(v, DD) else f(v)


def keysdiffer(x, y):
    """definite difference of two maps: one has a key the other does not"""
    if not any(isinstance(v, DD) and any(t.op == 'mput' for t in terms.leaves(v)) for v in (x, y)):
        return False
    try:
        return relational.equal(keysof(x), keysof(y)) is False
    except (NoKeys, Blowup):
        return False


def fielddiff(name, x, y):
    if veq(x, y):
        return []
    if isinstance(x, Rec) and isinstance(y, Rec) and x.ty == y.ty and (x.base is y.base or x.base == y.base):
        out = []
        fs = [f for f in (V.fields(x.ty) or {})]
        for f in sorted(set(x.f) | set(y.f)):
            if f not in refFields(x.ty):
                continue
            p, q = V.getf(x, f), V.getf(y, f)
            out += fielddiff(name + '.' + f, p, q)
        return out
    return [(name, x, y)]


REFFIELDS = {}


def refFields(key):
    if key in REFFIELDS:
        return REFFIELDS[key]
    f = V.fields(key)
    return f or {}

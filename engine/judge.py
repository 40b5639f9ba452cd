"""Decides obligations: which functions of the current tree compute something else than the
reference does, and whether that difference can be observed."""
import json
import re

import compare
import relational
import values as V
from compare import Comparison, EQ, DIFF, UNK, evaluable, callees
from program import AnalysisBroken, load, load_ref
from terms import DD, Rec, Term, show, FALSE, TRUE, AND, NOT, OR, implies

DROP = {'l', 'line', 'endline', 'col', 'tu', 'file', 'acc'}
LAMBDA = re.compile(r'\(lambda at [^)]*\)')
VARID = {'id', 'lid'}


def canon(x, ids=None):
    """syntax tree up to source positions and numbering of declarations"""
    if ids is None:
        ids = {}
    if isinstance(x, dict):
        out = {}
        for k in sorted(x):
            if k in DROP:
                continue
            v = x[k]
            if k in VARID and isinstance(v, int):
                v = ids.setdefault(v, len(ids))
            else:
                v = canon(v, ids)
            out[k] = v
        return out
    if isinstance(x, list):
        return [canon(v, ids) for v in x]
    if isinstance(x, str) and 'lambda at' in x:
        return LAMBDA.sub('(lambda)', x)
    return x


def ckey(x):
    return json.dumps(canon(x), sort_keys=True)


def mentions(x, recs, globs):
    if isinstance(x, dict):
        if x.get('k') == 'rec':
            recs.add(x.get('n'))
            if x.get('full'):
                recs.add(x['full'])
        if x.get('k') == 'var' and x.get('vk') == 'global':
            globs.add(x.get('qn') or x.get('n'))
        r = x.get('rec')
        if isinstance(r, str):
            recs.add(r)
        for v in x.values():
            if isinstance(v, (dict, list)):
                mentions(v, recs, globs)
    elif isinstance(x, list):
        for v in x:
            mentions(v, recs, globs)


class Shortcut:
    """functions whose syntax tree, and everything it mentions, is unchanged"""

    def __init__(self, ref, cur):
        self.ref, self.cur = ref, cur
        self.changedrecs = set()
        for k in set(ref.records) | set(cur.records):
            a, b = ref.records.get(k), cur.records.get(k)
            if a is b:
                continue
            ka, kb = (json.dumps(self.reckey(r)) if r else None for r in (a, b))
            if ka != kb:
                self.changedrecs.add(k)
        grow = True
        recs = {}
        for P in (ref, cur):
            for k, r in P.records.items():
                s, g = set(), set()
                mentions([f['t'] for f in r.get('fields', [])], s, g)
                for b in r.get('bases', []):
                    s.add(b if isinstance(b, str) else b.get('n'))
                recs.setdefault(k, set()).update(s)
        while grow and self.changedrecs:
            grow = False
            for k, s in recs.items():
                if k not in self.changedrecs and (s & self.changedrecs or s & {c.split('<')[0] for c in self.changedrecs}):
                    self.changedrecs.add(k)
                    grow = True
        self.changednames = self.changedrecs | {c.split('<')[0] for c in self.changedrecs}
        ga, gb = self.globs(ref), self.globs(cur)
        self.changedglobs = {q for q in set(ga) | set(gb) if ga.get(q) != gb.get(q)}
        self.memo = {}

    @staticmethod
    def reckey(r):
        return [canon([{k: v for k, v in f.items()} for f in r.get('fields', [])]), canon(r.get('bases', [])),
                sorted(c['id'] for c in r.get('ctors', []) if c.get('user'))]

    @staticmethod
    def globs(P):
        out = {}
        for g in P.globals.values():
            out.setdefault(g.get('qn') or g.get('n'), set()).add(ckey(dict(g, id=0)))
        return out

    def same(self, rf, cf):
        k = (rf['id'], cf['id'])
        if k not in self.memo:
            self.memo[k] = self._same(rf, cf)
        return self.memo[k]

    def _same(self, rf, cf):
        if rf is cf:
            same = True
        else:
            a = [canon([f.get('params'), f.get('inits'), f.get('body'), f.get('ret')]) for f in (rf, cf)]
            same = a[0] == a[1]
        if not same:
            return False
        if self.changednames or self.changedglobs:
            recs, globs = set(), set()
            mentions([cf.get('params'), cf.get('inits'), cf.get('body'), cf.get('ret'), {'rec': cf.get('rec')}], recs, globs)
            if recs & self.changednames or globs & self.changedglobs:
                return False
        return True


class JComparison(Comparison):
    """comparison with the unchanged-syntax shortcut (quick tier)"""

    def __init__(self, ref, cur, limit, shortcut):
        Comparison.__init__(self, ref, cur, limit=limit)
        self.syntax = Shortcut(ref, cur)
        self.short = self.syntax if shortcut else None
        self.evaluated = set()
        self.shortcutted = set()

    def unchanged(self, rf, cf):
        """same syntax over the same declarations: equal but for what the callees do"""
        return self.syntax.same(rf, cf)

    def _compare(self, rid):
        cid = self.pair.get(rid)
        if cid is not None and self.short is not None:
            rf, cf = self.ref.prog.functions[rid], self.cur.prog.functions[cid]
            if self.short.same(rf, cf):
                ok = True
                for y in sorted(self.calls_ref.get(rid, ())):
                    f = self.ref.prog.functions.get(y)
                    if y == rid or f is None or f.get('body') is None:
                        continue
                    if y not in self.pair or self.compare(y) != EQ:
                        ok = False
                        break
                if ok:
                    self.shortcutted.add(rid)
                    return EQ, 'unchanged', None
        if rid != cid or True:
            self.evaluated.add(rid)
        return Comparison._compare(self, rid)


class Group:
    def __init__(self, name, thorough=False, limit=None):
        self.name = name
        self.ref, self.cur = load_ref(name), load(name)
        self.cmp = JComparison(self.ref, self.cur, limit or (150 if thorough else 60), not thorough)
        if thorough:
            relational.PER_CALL, relational.IN_ALL = 40, 250
            compare.BUDGET[0] = 550
        self.callers = {}
        for i, cs in self.cmp.calls_ref.items():
            for c in cs:
                if c != i:
                    self.callers.setdefault(c, set()).add(i)
        for i, cs in self.cmp.calls_cur.items():
            for c in cs:
                a, b = self.cmp.canon.get(c), self.cmp.canon.get(i)
                if a and b and a != b:
                    self.callers.setdefault(a, set()).add(b)
        self.expo = {}

    def select(self, pat, ref=True):
        r = re.compile(pat)
        out = []
        for i, f in (self.ref if ref else self.cur).functions.items():
            if evaluable(f) and not f.get('implicit') and not f.get('isdtor') and r.search(short(f['n'])):
                out.append(i)
        return sorted(out)

    def entry(self, rid):
        f = self.ref.functions[rid]
        if f.get('file', '').startswith('include/') or '/include/' in f.get('file', ''):
            return 'public interface'
        if f.get('virt') or f.get('overrides'):
            return 'virtual'
        if not [c for c in self.callers.get(rid, ()) if evaluable(self.ref.functions[c])]:
            return 'no callers'
        # declared in an installed header, defined in a source file
        rec = self.ref.records.get(f.get('rec') or '')
        if rec and (rec.get('file', '').startswith('include/') or '/include/' in rec.get('file', '')) and f.get('acc') == 'public':
            return 'public interface'
        return None

    def exposed(self, rid, stack=()):
        """how a difference in a function can be observed from outside (None: callers make up for it)"""
        if rid in self.expo:
            return self.expo[rid]
        if rid in stack:
            return None
        e = self.entry(rid)
        if e is None:
            for c in sorted(self.callers.get(rid, ())):
                if not evaluable(self.ref.functions[c]):
                    continue
                st = self.cmp.compare(c)
                det = self.cmp.detail.get(c)
                if st == DIFF or (st == UNK and isinstance(det, dict) and 'inherited' in det):
                    x = self.exposed(c, stack + (rid,))
                    if x is not None:
                        e = 'through %s' % short(self.ref.functions[c]['n'])
                        break
        self.expo[rid] = e
        return e

    def where(self, rid):
        cid = self.cmp.pair.get(rid)
        f = self.cur.functions[cid] if cid else self.ref.functions[rid]
        return '%s:%s' % (f.get('file', f.get('tu')), f.get('line'))

    def changedline(self, rid):
        cid = self.cmp.pair.get(rid)
        if not cid:
            return None
        a, b = self.ref.functions[rid], self.cur.functions[cid]
        return firstline([a.get('params'), a.get('inits'), a.get('body')], [b.get('params'), b.get('inits'), b.get('body')], {}, {}, b.get('line'))


def firstline(a, b, ia, ib, line):
    """source line of the first syntactic difference (for the report only)"""
    if isinstance(b, dict):
        line = b.get('l', b.get('line', line))
        if not isinstance(a, dict):
            return line
        for k in sorted(set(a) | set(b)):
            if k in DROP:
                continue
            x, y = a.get(k), b.get(k)
            if k in VARID and isinstance(x, int) and isinstance(y, int):
                if ia.setdefault(x, len(ia)) != ib.setdefault(y, len(ib)):
                    return line
                continue
            r = firstline(x, y, ia, ib, line)
            if r is not None:
                return r
        return None
    if isinstance(b, list):
        if not isinstance(a, list):
            return line
        for i in range(max(len(a), len(b))):
            if i >= len(a):
                return firstline(None, b[i], ia, ib, line) or line
            if i >= len(b):
                return line
            r = firstline(a[i], b[i], ia, ib, line)
            if r is not None:
                return r
        return None
    if a is None and b is None:
        return None
    if isinstance(a, str) and isinstance(b, str) and 'lambda at' in a:
        a, b = LAMBDA.sub('', a), LAMBDA.sub('', b)
    return None if a == b else line


def short(n):
    return n.replace('navigine::navigation_core::', '').replace('(anonymous namespace)::', '')


def localise(x, y, depth=0):
    """smallest differing sub-values, for the report"""
    if isinstance(x, Term) and isinstance(y, Term) and x.op == y.op and len(x.args) == len(y.args) and depth < 60:
        d = [(p, q) for p, q in zip(x.args, y.args) if not same(p, q)]
        if len(d) == 1 and isinstance(d[0][0], (Term, DD, Rec)) and isinstance(d[0][1], (Term, DD, Rec)):
            return localise(d[0][0], d[0][1], depth + 1)
    if isinstance(x, DD) and isinstance(y, DD):
        lx = {str(show(t)): t for t in V_leaves(x)}
        ly = {str(show(t)): t for t in V_leaves(y)}
        ox = [t for s, t in lx.items() if s not in ly]
        oy = [t for s, t in ly.items() if s not in lx]
        if len(ox) == 1 and len(oy) == 1:
            return localise(ox[0], oy[0], depth + 1)
    return x, y


def V_leaves(d):
    from terms import leaves
    return list(leaves(d))


def same(a, b):
    if isinstance(a, (Term, DD, Rec)) and isinstance(b, (Term, DD, Rec)):
        try:
            return V.veq(a, b)
        except Exception:
            return a is b
    return a == b


def render(v, n=700):
    if v is None:
        return 'absent'
    try:
        s = str(show(v))
    except RecursionError:
        return '(large)'
    except Exception as x:
        return '(%s)' % type(x).__name__
    return s if len(s) <= n else s[:n] + ' ... (%d characters)' % len(s)


def judge(G, rid, comp=None):
    """-> (state, text, detail) for one obligation; state in ok, violation, hidden, undecided"""
    c = G.cmp
    st = c.compare(rid)
    f = G.ref.functions[rid]
    if st == EQ:
        return 'ok', c.why[rid] or 'value graphs agree', None
    det = c.detail.get(rid)
    if c.pair.get(rid) is None:
        if G.entry(rid):
            return 'undecided', 'no longer exists: %s (%s)' % (short(f['n']), G.entry(rid)), None
        return 'hidden', 'helper no longer exists; its callers are decided with their new helpers inlined', None
    inherited = isinstance(det, dict) and det.get('inherited')
    if st == UNK:
        return 'undecided', c.why[rid], None
    d = det
    if isinstance(det, dict):
        d = det.get('graph')
    d = d or []
    if comp:
        r = re.compile(comp)
        sel = [x for x in d if r.search(x[0])]
        if not sel:
            return 'other', 'differs only in %s' % ', '.join(x[0] for x in d)[:200], None
        d = sel
    how = G.exposed(rid)
    if how is None:
        return 'hidden', 'differs, but every caller computes the same values with it inlined', None
    if inherited and any(c.status.get(y) == DIFF for y in det['inherited']):
        return 'inherited', 'differs only through ' + ', '.join(short(G.ref.functions[y]['n']) for y in det['inherited']), [(k, x, y) for k, x, y in d]
    return 'violation', '%s computes a different %s (observable: %s)' % (short(f['n']), ', '.join(x[0] for x in d)[:300], how), d

#!/usr/bin/env python3-vt
"""check.py PROPERTY [quick|thorough]: decide one property of /repo's current sources.
exit 0: holds on everything analysed; 1: VIOLATION line; 2: the analysis itself could not run."""
import json
import os
import re
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.path.insert(0, os.path.join(HERE, 'spec'))
sys.setrecursionlimit(30000)

from context import Ctx, Result
from judge import judge, render, localise, short
from program import AnalysisBroken
import compare
import rules
import table


def functions(ctx, P, res):
    """obligations of the property's functions against the reference value graphs"""
    seen = {}
    for ent in P['fns']:
        g, pat = ent[0], ent[1]
        comp = ent[2] if len(ent) > 2 else None
        G = ctx.group(g)
        ids = G.select(pat)
        if not ids:
            raise AnalysisBroken('no function matches %s in %s' % (pat, g))
        for i in ids:
            k = (g, i)
            if k in seen and (seen[k] is None or comp is None):
                seen[k] = None
                continue
            seen[k] = comp if k not in seen else '(%s)|(%s)' % (seen[k], comp)
    for (g, i), comp in seen.items():
        G = ctx.group(g)
        f = G.ref.functions[i]
        st, text, det = judge(G, i, comp)
        name = '%s: %s' % (g, short(f['n']))
        if st in ('ok', 'hidden', 'other', 'inherited'):
            res.ok('%s - %s' % (name, text))
            if st != 'ok':
                res.notes.append('%s: %s' % (name, text))
        elif st == 'undecided':
            res.open('%s: %s' % (name, text[:400]))
        else:
            d = []
            for k, x, y in det or []:
                try:
                    p, q = localise(x, y)
                except Exception:
                    p, q = x, y
                d.append(dict(component=k, reference=render(p), current=render(q)))
            line = G.changedline(i)
            where = G.where(i) + ('' if line is None else ' (first changed construct at line %s)' % line)
            res.bad('%s:%s:%s' % (g, short(f['n']), ','.join(sorted(x['component'] for x in d))), where, text, d)
    ev = sum(len(ctx.group(g).cmp.evaluated) for g in {e[0] for e in P['fns']})
    res.notes.append('functions re-evaluated on both sides: %d; unchanged syntax with unchanged callees: %d' % (
        ev, sum(len(ctx.group(g).cmp.shortcutted) for g in {e[0] for e in P['fns']})))


def known():
    p = os.path.join(HERE, 'known_findings.txt')
    out = []
    for l in open(p):
        m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l.strip())
        if m:
            out.append(m.groups())
    return out


def run(pid, tier, ctx=None):
    t0 = time.time()
    P = next((p for p in table.PROPS if p['id'] == pid), None)
    if P is None:
        print('unknown property', pid)
        return 2
    ev = os.path.join(HERE, 'evidence', pid + '.json')
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    ctx = ctx or Ctx(tier)
    results = []
    try:
        for r in P['rules']:
            results.append(getattr(rules, r)(ctx))
        if P['fns']:
            res = Result('functions', 'every listed function computes, for all inputs, the same value graph as the reviewed reference')
            results.append(res)
            functions(ctx, P, res)
    except AnalysisBroken as x:
        print('ERROR property=%s analysis could not run: %s' % (pid, x))
        return 2
    ob = sum(r.obligations for r in results)
    if ob < P.get('floor', 1):
        print('ERROR property=%s only %d obligations found' % (pid, ob))
        return 2
    viol = [(r, v) for r in results for v in r.violations]
    kn = known()
    fresh, listed = [], []
    for r, v in viol:
        hit = [k for k in kn if k[0] == pid and k[1] == v.key.replace(' ', '_')]
        (listed if hit else fresh).append((r, v))
    cov = dict(
        explanation='static analysis of the current sources; ' + '; '.join('%s: %s' % (r.name, r.rule) for r in results),
        obligations=ob, discharged=sum(r.discharged for r in results), undecided=sum(len(r.undecided) for r in results),
        rules=[dict(name=r.name, rule=r.rule, obligations=r.obligations, discharged=r.discharged, undecided=r.undecided[:40], notes=r.notes[:40], samples=r.samples) for r in results],
        translation_units={g: dict(total=len(x.cur.tus), reused_unchanged=len(x.cur.reused)) for g, x in ctx._g.items()} or
                          {g: dict(total=len(x.tus), reused_unchanged=len(x.reused)) for g, x in ctx._p.items()},
    )
    if P['level'] == 'proof':
        cov['checker_cmd'] = './check.py %s %s' % (pid, tier)
        cov['trusted_base'] = table.TRUSTED
    out = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=P['level'], coverage=cov,
               assumptions=table.ASSUMPTIONS, wall_s=round(time.time() - t0, 2), violations=len(fresh))
    json.dump(out, open(ev, 'w'), indent=1, default=str)
    for r, v in listed:
        print('KNOWN-FINDING: property=%s %s %s' % (pid, v.where, v.text))
    for r in results:
        for u in r.undecided:
            print('undecided: %s' % u[:300])
    print('%s: %d obligations, %d discharged, %d undecided, %d violations, %.1f s' % (pid, ob, cov['discharged'], cov['undecided'], len(fresh), time.time() - t0))
    if fresh:
        rp = os.path.join(HERE, 'build', 'replay')
        os.makedirs(rp, exist_ok=True)
        f = os.path.join(rp, pid + '.json')
        json.dump(dict(property=pid, title=P['title'], how='python: ./check.py %s' % pid,
                       violations=[dict(rule=r.name, key=v.key, where=v.where, what=v.text, detail=v.detail) for r, v in fresh]), open(f, 'w'), indent=1, default=str)
        for r, v in fresh[:20]:
            print('  %s: %s' % (v.where, v.text))
            for d in (v.detail or [])[:3]:
                if isinstance(d, dict):
                    print('      %s' % json.dumps(d)[:900])
        print('VIOLATION property=%s replay=%s' % (pid, f))
        return 1
    return 0


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    rc = [2]

    def go():
        try:
            if pid == 'all':     # development aid: every property on one analysis
                compare.BUDGET[0] = 1500
                ctx = Ctx(tier)
                rc[0] = max([run(p['id'], tier, ctx) for p in table.PROPS])
            else:
                rc[0] = run(pid, tier)
        except BaseException:
            traceback.print_exc()
            rc[0] = 2
    go()
    sys.stdout.flush()
    os._exit(rc[0])


if __name__ == '__main__':
    main()

"""Parse the current /repo sources with clang (navdump) and give the merged,
type-resolved program: functions, records, enums, globals per build group."""
import concurrent.futures
import copy
import glob
import hashlib
import json
import lzma
import os
import re
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('NAV_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
TOOL = os.path.join(BUILD, 'navdump')
CACHE = os.path.join(BUILD, 'cache')
SPEC = os.path.join(VERIF, 'spec')

BASEFLAGS = ['-std=c++17', '-w', '-include', 'list', '-DBUILD_FOR_LINUX', '-D_DEBUG', '-ferror-limit=0']
EIGEN = ['-isystem', '/usr/include/eigen3']


class AnalysisBroken(Exception):
    """the analysis itself cannot run (unparsable tree, missing anchor)"""


def build_tool():
    src = os.path.join(VERIF, 'engine', 'navdump.cpp')
    stamp = TOOL + '.stamp'
    h = hashlib.sha1(open(src, 'rb').read()).hexdigest()
    if os.path.exists(TOOL) and os.path.exists(stamp) and open(stamp).read() == h:
        return
    os.makedirs(BUILD, exist_ok=True)
    cpp = subprocess.check_output(['llvm-config-18', '--cppflags'], text=True).split()
    tmp = TOOL + '.tmp%d' % os.getpid()
    cmd = ['clang++', '-O1', '-std=c++17', '-fno-rtti', '-fno-exceptions', '-w'] + cpp + [src, '-o', tmp,
           '/usr/lib/x86_64-linux-gnu/libclang-cpp.so.18', '/usr/lib/llvm-18/lib/libLLVM-18.so']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken('cannot build navdump: ' + r.stderr[:2000])
    os.replace(tmp, TOOL)
    open(stamp, 'w').write(h)


GROUPS = {
    'core': dict(globs=['src/*.cpp', 'src/*/*.cpp'], inc=['include']),
    'tools': dict(globs=['tools/verification/*.cpp', 'tests/*.cpp'], inc=['include', '.']),
    'complementary_filter': dict(globs=['standalone_algorithms/complementary_filter/src/*.cpp', 'standalone_algorithms/complementary_filter/examples/*.cpp'],
                                 inc=['standalone_algorithms/complementary_filter/include']),
    'pedometer': dict(globs=['standalone_algorithms/pedometer/src/*.cpp', 'standalone_algorithms/pedometer/examples/*.cpp'],
                      inc=['standalone_algorithms/pedometer/include']),
    'position_estimation': dict(globs=['standalone_algorithms/position_estimation/src/*.cpp', 'standalone_algorithms/position_estimation/examples/*.cpp'],
                                inc=['standalone_algorithms/position_estimation/include']),
    'trilateration': dict(globs=['standalone_algorithms/trilateteration/src/*.cpp'],
                          inc=['standalone_algorithms/trilateteration/src']),
}


def tree_hash(root):
    h = hashlib.sha1()
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in ('.git', '_build', 'logs', 'docs'))
        for f in sorted(fs):
            if f.endswith(('.cpp', '.h', '.hpp', '.cc', '.cxx', '.inl')):
                p = os.path.join(d, f)
                h.update(p.encode())
                h.update(open(p, 'rb').read())
    return h.hexdigest()


def dump_one(root, path, flags, out):
    r = subprocess.run([TOOL, root, out, path, '--'] + flags, capture_output=True, text=True)
    try:
        d = json.load(open(out))
    except Exception:
        return path, None, r.stderr
    finally:
        if os.path.exists(out):
            os.unlink(out)
    if d.get('errors'):
        return path, None, r.stderr
    return path, d, ''


class Program:
    def __init__(self):
        self.functions = {}
        self.records = {}
        self.enums = {}
        self.globals = {}   # (tu, id) -> var
        self.tus = []
        self.group = None

    def add(self, tu, d):
        self.tus.append(tu)
        for k, f in d['functions'].items():
            if k not in self.functions:
                f['tu'] = tu
                self.functions[k] = f
        for k, r in d['records'].items():
            self.records.setdefault(k, r)
        for k, e in d['enums'].items():
            self.enums.setdefault(k, e)
        for k, g in d['globals'].items():
            if g:
                g['tu'] = tu
                self.globals[(tu, int(k))] = g

    def finish(self):
        self.byname = {}
        for f in self.functions.values():
            self.byname.setdefault(f['n'], []).append(f)
        self.overrides = {}
        for f in self.functions.values():
            for b in f.get('overrides', []):
                self.overrides.setdefault(b, []).append(f)
        return self

    def fn(self, qn, n=None, optional=False):
        l = [f for f in self.byname.get(qn, []) if n is None or len(f['params']) == n]
        if not l:
            if optional:
                return None
            raise AnalysisBroken('anchor vanished: function %s%s not found in the parsed program' % (qn, '' if n is None else '/%d' % n))
        if len(l) > 1:
            raise AnalysisBroken('anchor ambiguous: %s' % qn)
        return l[0]


def sha(path):
    try:
        return hashlib.sha1(open(path, 'rb').read()).hexdigest()
    except OSError:
        return None


TOKEN = re.compile(r'''
    (?P<raw>(?:u8|u|U|L)?R"(?P<d>[^()\\\s]{0,16})\(.*?\)(?P=d)")
  | (?P<str>"(?:\\.|[^"\\\n])*")
  | (?P<chr>(?<![0-9A-Za-z_])'(?:\\.|[^'\\\n])+')
  | (?P<com>//[^\n]*|/\*.*?\*/)
  | (?P<ws>[ \t\r\f\v]+)
  | (?P<nl>\n)
  | (?P<any>[0-9A-Za-z_.']+|.)''', re.S | re.X)


def tokhash(path):
    """hash of a source file up to comments and white space"""
    try:
        s = open(path, encoding='utf-8', errors='surrogateescape').read()
    except OSError:
        return None
    s = s.replace('\\\r\n', ' ').replace('\\\n', ' ')
    out, space, nl = [], False, True
    for m in TOKEN.finditer(s):
        k = m.lastgroup
        if k == 'd':
            k = 'raw'
        if k in ('com', 'ws'):
            space = True
        elif k == 'nl':
            if not nl:
                out.append('\n')
            nl, space = True, False
        else:
            if space and not nl:
                out.append(' ')
            out.append(m.group())
            nl = space = False
    while out and out[-1] in ('\n', ' '):
        out.pop()
    return hashlib.sha1(''.join(out).encode('utf-8', 'surrogateescape')).hexdigest()


REFDIR = os.path.join(SPEC, 'ref')
_refcache = {}


def refdumps(group):
    """committed parse results of the reference tree: {tu: dict(deps={file: sha1}, dump=...)}"""
    if group not in _refcache:
        p = os.path.join(REFDIR, group + '.json.xz')
        _refcache[group] = json.loads(lzma.open(p).read()) if os.path.exists(p) else {'flags': None, 'tus': {}}
    return _refcache[group]


def flagsof(group):
    g = GROUPS[group]
    return BASEFLAGS + sum([['-I', '@/' + i] for i in g['inc']], []) + EIGEN


def fresh(root, tu, ent, memo):
    for f, h in ent['deps'].items():
        k = memo.get(f)
        if k is None:
            k = memo[f] = tokhash(os.path.join(root, f)) or '-'
        if k != h:
            return False
    return True


def parse_tus(group, repo):
    """parse results per translation unit; a unit whose source and every repository header it
    includes are byte-identical to the reference tree reuses the committed parse result"""
    g = GROUPS[group]
    files = sorted(set(sum([glob.glob(os.path.join(repo, p)) for p in g['globs']], [])))
    if not files:
        raise AnalysisBroken('no sources for group ' + group)
    flags = flagsof(group)
    ref = refdumps(group)
    same = ref['flags'] == flags and ref.get('tool') == toolhash()
    out, todo, memo = {}, [], {}
    for f in files:
        tu = os.path.relpath(f, repo)
        e = ref['tus'].get(tu) if same else None
        if e is not None and fresh(repo, tu, e, memo):
            out[tu] = dict(e, reused=True)
        else:
            todo.append(f)
    if todo:
        build_tool()
        os.makedirs(CACHE, exist_ok=True)
        fl = [x.replace('@', repo, 1) if x.startswith('@/') else x for x in flags]
        fl = [x for x in fl]

        def one(i, f):
            tu = os.path.relpath(f, repo)
            tag = hashlib.sha1((repo + '|' + group + '|' + tu + '|' + sha(f) + toolhash() + repr(flags)).encode()).hexdigest()
            c = os.path.join(CACHE, tag + '.json')
            if os.path.exists(c):
                try:
                    e = json.load(open(c))
                    if fresh(repo, tu, e, {}):
                        return f, e, ''
                except Exception:
                    pass
            path, d, err = dump_one(repo, f, fl, os.path.join(CACHE, 'd%d_%s_%d.json' % (os.getpid(), group, i)))
            if d is None:
                return f, None, err
            deps = {x: tokhash(os.path.join(repo, x)) for x in sorted(set(d.pop('deps') + [tu]))}
            e = dict(deps=deps, dump=d)
            t = c + '.%d' % os.getpid()
            json.dump(e, open(t, 'w'))
            os.replace(t, c)
            return f, e, ''
        with concurrent.futures.ThreadPoolExecutor(max(1, min(8, os.cpu_count() or 4))) as ex:
            for f, e, err in ex.map(lambda x: one(*x), enumerate(todo)):
                if e is None:
                    raise AnalysisBroken('cannot parse %s: %s' % (f, err[:1500]))
                out[os.path.relpath(f, repo)] = e
    return out


def toolhash():
    return sha(os.path.join(VERIF, 'engine', 'navdump.cpp'))


def assemble(group, tus):
    P = Program()
    P.group = group
    P.reused = [t for t, e in tus.items() if e.get('reused')]
    for tu in sorted(tus):
        P.add(tu, copy.deepcopy(tus[tu]['dump']) if tus[tu].get('reused') else tus[tu]['dump'])
    return P.finish()


def load(group, repo=None):
    repo = os.path.abspath(repo or REPO)
    return assemble(group, parse_tus(group, repo))


def load_ref(group):
    """the reference program"""
    r = refdumps(group)
    if not r['tus']:
        raise AnalysisBroken('no reference parse results for group ' + group)
    return assemble(group, {t: dict(e, reused=True) for t, e in r['tus'].items()})


def pin(repo):
    """regenerate the committed reference parse results from a tree"""
    os.makedirs(REFDIR, exist_ok=True)
    for g in GROUPS:
        p = os.path.join(REFDIR, g + '.json.xz')
        if os.path.exists(p):
            os.unlink(p)
        _refcache.pop(g, None)
        tus = parse_tus(g, os.path.abspath(repo))
        d = dict(flags=flagsof(g), tool=toolhash(), tus={t: dict(deps=e['deps'], dump=e['dump']) for t, e in sorted(tus.items())})
        with lzma.open(p, 'wb', preset=6) as f:
            f.write(json.dumps(d, sort_keys=True).encode())
        print(g, len(tus), os.path.getsize(p))


if __name__ == '__main__' and sys.argv[1:2] == ['--pin']:
    pin(sys.argv[2])
    sys.exit(0)


if __name__ == '__main__':
    import time
    for g in GROUPS:
        t = time.time()
        P = load(g)
        print(g, len(P.tus), len(P.functions), len(P.records), len(P.globals), '%.1fs' % (time.time() - t))

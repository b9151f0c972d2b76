"""Loads /repo's current source as a type-checked program (via tool/extract)."""
import hashlib, json, time, os, subprocess, sys, glob, shutil, tempfile, re
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('WDTSA_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')


class Broken(Exception):
    """The analysis cannot be carried out (anchor gone, parse failure)."""


def sources(repo):
    out = []
    for d in ('', 'util', 'bench'):
        p = os.path.join(repo, d)
        out += sorted(os.path.join(d, f) for f in os.listdir(p)
                      if f.endswith('.cpp'))
    # bench test programs are tests, not part of the system
    return [f for f in out if os.path.basename(f) not in
            ('WdtGenTestUtils.cpp', 'wdtGenTest.cpp')]


def _hash(repo):
    h = hashlib.sha256()
    files = []
    for d in ('', 'util', 'bench'):
        p = os.path.join(repo, d)
        for f in sorted(os.listdir(p)):
            if f.endswith(('.cpp', '.h', '.inc', '.in')) or f == 'CMakeLists.txt':
                files.append(os.path.join(p, f))
    for root, _, fs in os.walk(os.path.join(VERIF, 'shim')):
        for f in sorted(fs):
            files.append(os.path.join(root, f))
    files.append(os.path.join(VERIF, 'tool', 'extract.cpp'))
    for f in sorted(files):
        h.update(f.encode())
        h.update(b'\0')
        with open(f, 'rb') as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:24]


def build_tool():
    exe = os.path.join(BUILD, 'extract')
    src = os.path.join(VERIF, 'tool', 'extract.cpp')
    stamp = hashlib.sha256(open(src, 'rb').read()).hexdigest()
    sf = exe + '.stamp'
    if os.path.exists(exe) and os.path.exists(sf) and open(sf).read() == stamp:
        return exe
    os.makedirs(BUILD, exist_ok=True)
    r = subprocess.run(
        ['g++', '-O1', '-std=c++17', '-fno-rtti', '-I/usr/lib/llvm-18/include',
         '-D__STDC_CONSTANT_MACROS', '-D__STDC_LIMIT_MACROS',
         '-D__STDC_FORMAT_MACROS', src, '-o', exe + '.tmp',
         '-L/usr/lib/llvm-18/lib', '-l:libclang-cpp.so.18.1',
         '-l:libLLVM-18.so', '-Wl,-rpath,/usr/lib/llvm-18/lib'],
        capture_output=True, text=True)
    if r.returncode:
        raise Broken('cannot build the extractor: ' + r.stderr[-2000:])
    os.replace(exe + '.tmp', exe)
    open(sf, 'w').write(stamp)
    return exe


def flags(inc, cfg, repo):
    return ['-std=c++17', '-include', os.path.join(VERIF, 'shim', 'prelude.h'),
            '-w', '-I' + os.path.join(VERIF, 'shim', 'folly'),
            '-I' + os.path.join(VERIF, 'shim', 'glog'), '-I' + cfg,
            '-I' + inc, '-I' + os.path.join(repo, 'util'),
            '-resource-dir=/usr/lib/llvm-18/lib/clang/18']


def extract(repo=None):
    """Returns the list of per-TU JSON files for the current tree."""
    repo = repo or REPO
    exe = build_tool()
    h = _hash(repo)
    cache = os.path.join(BUILD, 'cache', h)
    done = os.path.join(cache, 'DONE')
    if os.path.exists(done):
        return sorted(glob.glob(os.path.join(cache, '*.json')))
    os.makedirs(os.path.join(BUILD, 'cache'), exist_ok=True)
    def age(o):
        try:
            return time.time() - os.path.getmtime(o)
        except OSError:
            return 0
    for a, o in sorted(((age(o), o) for o in glob.glob(os.path.join(BUILD, 'cache', '*'))), reverse=True)[:-8]:
        if a < 600:
            continue
        shutil.rmtree(o, ignore_errors=True)
    tmp = tempfile.mkdtemp(prefix='x', dir=os.path.join(BUILD, 'cache'))
    inc = os.path.join(tmp, 'inc')
    cfg = os.path.join(tmp, 'cfg')
    os.makedirs(inc)
    os.symlink(os.path.abspath(repo), os.path.join(inc, 'wdt'))
    subprocess.run([sys.executable, os.path.join(VERIF, 'mkconfig.py'), repo,
                    os.path.join(cfg, 'wdt', 'WdtConfig.h')], check=True)
    fl = flags(inc, cfg, repo)

    def one(f):
        out = os.path.join(tmp, f.replace('/', '_') + '.json')
        r = subprocess.run([exe, repo, out, os.path.join(repo, f), '--'] + fl,
                           capture_output=True, text=True)
        if r.returncode or not os.path.exists(out):
            return f, r.stderr[-3000:]
        return f, None
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        res = list(ex.map(one, sources(repo)))
    bad = [(f, e) for f, e in res if e]
    if bad:
        shutil.rmtree(tmp, ignore_errors=True)
        raise Broken('cannot parse %s: %s' % bad[0])
    shutil.rmtree(inc, ignore_errors=True)
    open(os.path.join(tmp, 'DONE'), 'w').close()
    if os.path.exists(cache):
        shutil.rmtree(tmp, ignore_errors=True)
    else:
        try:
            os.rename(tmp, cache)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return sorted(glob.glob(os.path.join(cache, '*.json')))


STREAM_T = 'std::basic_ostream<'


class Func:
    __slots__ = ('_choices', '_loops', 'key', 'qn', 'file', 'line', 'end', 'ret', 'params', 'cls',
                 'static', 'virt', 'const', 'ctor', 'dtor', 'lambda_', 'encl',
                 'over', 'blocks', 'entry', 'exit', 'nodes', 'nr', 'inst',
                 'access', '_rpo', '_live', '_cross', '_calls', '_addr',
                 '_owner')

    def __init__(self, key, d):
        self.key = key
        self.qn = d['qn']
        self.file = d['file']
        self.line = d['line']
        self.end = d['end']
        self.ret = d['ret']
        self.params = d['params']
        self.cls = d.get('cls')
        self.static = d.get('static', 0)
        self.virt = d.get('virt', 0)
        self.const = d.get('const', 0)
        self.ctor = d.get('ctor', 0)
        self.dtor = d.get('dtor', 0)
        self.lambda_ = d.get('lambda', 0)
        self.encl = d.get('encl')
        self.over = d.get('over', [])
        self.inst = d.get('inst', 0)
        self.access = d.get('access', 0)
        self.nr = d.get('nr', 0)
        self.blocks = d['blocks']
        self.entry = d['entry']
        self.exit = d['exit']
        self.nodes = {int(k): v for k, v in d['nodes'].items()}
        self._rpo = self._live = self._cross = self._calls = None
        self._addr = self._owner = None
        # clean the element lists: name-only nodes carry no effect
        for b in self.blocks:
            if b:
                b['e'] = [e for e in b['e']
                          if self.nodes[e]['k'] not in ('fn', 'mf', 'c', 'str',
                                                        'this', 'sizeof')]

    @property
    def name(self):
        return self.qn.rsplit('::', 1)[-1]

    def loc(self, node=None):
        if node is None:
            return '%s:%d' % (self.file, self.line)
        n = self.nodes[node] if isinstance(node, int) else node
        return '%s:%d' % (self.file, n.get('l', self.line))

    def rpo(self):
        if self._rpo is None:
            seen = set()
            order = []
            stack = [(self.entry, iter(self.blocks[self.entry]['s']))]
            seen.add(self.entry)
            while stack:
                b, it = stack[-1]
                for s in it:
                    if s >= 0 and s not in seen:
                        seen.add(s)
                        stack.append((s, iter(self.blocks[s]['s'])))
                        break
                else:
                    order.append(b)
                    stack.pop()
            order.reverse()
            self._rpo = {b: i for i, b in enumerate(order)}
        return self._rpo

    def reachable(self):
        return self.rpo().keys()

    def elems(self):
        for b in self.reachable():
            for e in self.blocks[b]['e']:
                yield e, self.nodes[e]

    def calls(self):
        """[(node id, node)] of call/ctor/dtor elements in reachable blocks."""
        if self._calls is None:
            out = []
            seen = set()
            for b in self.reachable():
                for e in self.blocks[b]['e']:
                    for c in self.subnodes(e):
                        if c in seen:
                            continue
                        seen.add(c)
                        n = self.nodes[c]
                        if n['k'] in ('call', 'ctor', 'dtor') and n.get('f'):
                            out.append((c, n))
            self._calls = out
        return self._calls

    def children(self, nid):
        n = self.nodes[nid]
        out = []
        k = n['k']
        for f in ('o', 'ce', 'b', 'i', 'e', 'c', 'n'):
            v = n.get(f)
            if isinstance(v, int) and v > 0 and not isinstance(v, bool):
                if f == 'n' and k != 'new':
                    continue
                if f == 'c' and k != 'cond':
                    continue
                out.append(v)
        a = n.get('a')
        if isinstance(a, list):
            out += [x for x in a if x]
        elif isinstance(a, int) and k in ('bin', 'assign', 'cassign', 'logic',
                                          'comma', 'cond'):
            out.append(a)
        for d in n.get('ds', []):
            if d.get('e'):
                out.append(d['e'])
            if d.get('vla'):
                out.append(d['vla'])
        for c in n.get('caps', []):
            if c.get('e'):
                out.append(c['e'])
        return out

    def subnodes(self, nid):
        st = [nid]
        seen = set()
        while st:
            x = st.pop()
            if x in seen or x not in self.nodes:
                continue
            seen.add(x)
            yield x
            st += self.children(x)


class Program:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.F = {}
        self.records = {}
        self.enums = {}
        self.globals = {}
        self.tus = 0
        for f in extract(self.repo):
            self.tus += 1
            with open(f) as fh:
                d = json.load(fh)
            for k, v in d['functions'].items():
                if k not in self.F:
                    self.F[k] = Func(k, v)
            for k, v in d['records'].items():
                self.records.setdefault(k, v)
            for k, v in d['enums'].items():
                self.enums.setdefault(k, v)
            for k, v in d['globals'].items():
                if k not in self.globals or ('e' in v and 'e' not in self.globals[k]):
                    self.globals[k] = v
        self.by_qn = {}
        for k, f in self.F.items():
            self.by_qn.setdefault(f.qn, []).append(f)
        self.overriders = {}
        for rn, r in self.records.items():
            for m in r['methods']:
                for o in m.get('over', []):
                    self.overriders.setdefault(o, []).append(m['k'])
        self.subs = {}
        for rn, r in self.records.items():
            for b in r['bases']:
                self.subs.setdefault(b, []).append(rn)
        self._reach = {}

    # ---- lookup ----
    def fn(self, qn, opt=False):
        fs = self.by_qn.get(qn, [])
        if not fs:
            if opt:
                return None
            raise Broken('anchor function %s not found' % qn)
        return fs[0]

    def fns(self, qn):
        return self.by_qn.get(qn, [])

    def enum_val(self, qn):
        enum, name = qn.rsplit('::', 1)
        for e in self.enums[enum]['v']:
            if e['n'] == name:
                return e['v']
        raise Broken('enumerator %s not found' % qn)

    def enum(self, qn):
        if qn not in self.enums:
            raise Broken('enum %s not found' % qn)
        return {e['n']: e['v'] for e in self.enums[qn]['v']}

    def table(self, qn):
        """functions listed in a table of (member) function pointers"""
        g = self.globals.get('::' + qn) or self.globals.get(qn)
        if not g or 'e' not in g:
            return None
        N = g['nodes']

        def f(x):
            n = N.get(str(x), {})
            if n.get('f') and n['k'] in ('m', 'v', 'fref', 'fn', 'dre'):
                return n['f']
            for k in ('e', 'a', 'b'):
                v = n.get(k)
                if isinstance(v, int):
                    r = f(v)
                    if r:
                        return r
            return n.get('f')
        return [f(x) for x in N[str(g['e'])]['a']]

    def record(self, qn):
        if qn not in self.records:
            raise Broken('class %s not found' % qn)
        return self.records[qn]

    def is_sub(self, rec, base):
        if rec == base:
            return True
        r = self.records.get(rec)
        return bool(r) and any(self.is_sub(b, base) for b in r['bases'])

    def impls(self, key):
        """Function keys a virtual call to `key` may reach (with bodies)."""
        out = []
        seen = set()
        st = [key]
        while st:
            k = st.pop()
            if k in seen:
                continue
            seen.add(k)
            if k in self.F:
                out.append(k)
            st += self.overriders.get(k, [])
        return out

    def targets(self, node):
        """Bodies that a call node may reach."""
        k = node.get('fk')
        if not k:
            return []
        if node.get('virt'):
            return self.impls(k)
        return [k] if k in self.F else []

    def callers(self):
        """function -> functions that may call it (or create it, for lambdas)"""
        if not hasattr(self, '_callers'):
            m = {}
            for k, f in self.F.items():
                for _, n in f.calls():
                    for t in self.targets(n):
                        m.setdefault(t, set()).add(k)
                for n in f.nodes.values():
                    if n['k'] == 'lam':
                        m.setdefault(n['fk'], set()).add(k)
            self._callers = m
        return self._callers

    def transitive_callees(self, key, stop=lambda k: False):
        seen = set()
        st = [key]
        while st:
            k = st.pop()
            if k in seen or k not in self.F:
                continue
            seen.add(k)
            if stop(k) and k != key:
                continue
            f = self.F[k]
            for _, n in f.calls():
                st += self.targets(n)
            for _, n in f.nodes.items():
                if n['k'] == 'lam':
                    st.append(n['fk'])
        return seen

    # ---- field effects ----
    def direct_mods(self, f):
        """members f's own body may modify"""
        out = set()

        def root(x, deep=0):
            n = f.nodes.get(x)
            while n is not None:
                k = n['k']
                if k == 'm':
                    out.add(n['f'])
                    return
                if k in ('idx', 'deref', 'cast', 'load', 'addr'):
                    x = n.get('b') or n.get('e')
                    n = f.nodes.get(x)
                    if k == 'deref' or k == 'load':
                        return
                    continue
                if k == 'call' and n.get('o') and n.get('lv') and not n.get('repo'):
                    # element access of a standard container
                    n = f.nodes.get(n['o'])
                    continue
                return
        for nid, n in f.nodes.items():
            k = n['k']
            if k in ('assign', 'cassign'):
                root(n['a'])
            elif k == 'incdec':
                root(n.get('e') or n.get('a'))
            elif k == 'minit' and n.get('f'):
                out.add(n['f'])
            elif k == 'decl':
                for d in n['ds']:
                    if d.get('ref') and d.get('e') and not d['t'].startswith('const '):
                        root(d['e'])
            elif k in ('call', 'ctor'):
                if k == 'call' and n.get('o') and not n.get('cm') and not n.get('repo') \
                        and not n.get('f', '').startswith(STREAM_T):
                    root(n['o'])
                for a, m in zip(n.get('a', []), n.get('am', [])):
                    if m in (2, 3):
                        y = f.nodes.get(a, {})
                        if y.get('k') == 'addr':
                            root(y['e'])
                        elif y.get('lv') or y.get('k') == 'call' and y.get('f') == 'std::move':
                            root(y['a'][0] if y.get('f') == 'std::move' and y.get('a') else a)
                        elif y.get('k') == 'cast':
                            root(a)
        return out

    def mods(self, key):
        """members (qualified names) a call may modify, transitively"""
        if not hasattr(self, '_mods'):
            self._mods = {}
            self._dm = {}
            self._lams = sorted({n['fk'] for f in self.F.values() for n in f.nodes.values()
                                 if n['k'] == 'lam' and n['fk'] in self.F})
        r = self._mods.get(key)
        if r is not None:
            return r
        out = set()
        seen = set()
        st = [key]
        while st:
            k = st.pop()
            if k in seen or k not in self.F:
                continue
            seen.add(k)
            f = self.F[k]
            if k not in self._dm:
                self._dm[k] = self.direct_mods(f)
            out |= self._dm[k]
            for _, n in f.calls():
                st += self.targets(n)
                if n.get('f', '').startswith('std::function<') and n['f'].endswith('operator()'):
                    st += self._lams
            for n in f.nodes.values():
                if n['k'] == 'lam':
                    st.append(n['fk'])
        self._mods[key] = frozenset(out)
        return self._mods[key]

    def fields_of(self, rec):
        out = []
        todo = [rec]
        seen = set()
        while todo:
            x = todo.pop()
            if x in seen or x not in self.records:
                continue
            seen.add(x)
            out += self.records[x]['fields']
            todo += self.records[x]['bases']
        return out

    def touched(self, rec, mods):
        """fields of rec that mods may change"""
        out = []
        for fd in self.fields_of(rec):
            if fd['q'] in mods:
                out.append(fd['q'])
                continue
            t = fd['t'].replace('const ', '').replace('facebook::wdt::', '')
            if t in self.records and not fd['t'].rstrip().endswith(('*', '&')) and self.touched(t, mods):
                out.append(fd['q'])
        return out

"""Interprocedural lockset dataflow.

A state is the set of locks held: (mutex, base, holder); mutex is the qualified
name of the mutex variable or member, base identifies the object it belongs to
('this', a local, or an expression), holder is the guard variable or 'manual'.
Functions are explored once per distinct entry lockset; path sets are kept
apart, so both must-held and may-held facts are available at every node.
"""
from .program import Broken

GUARDS = ('std::unique_lock', 'std::lock_guard', 'std::scoped_lock', 'std::shared_lock')
MUTEX_T = ('std::mutex', 'std::recursive_mutex', 'folly::SpinLock', 'folly::RWSpinLock', 'std::timed_mutex',
           'std::shared_mutex', 'std::recursive_timed_mutex', 'std::shared_timed_mutex', 'folly::MicroSpinLock')


def tbase(t):
    t = (t or '').replace('const ', '').replace('mutable ', '').strip(' &*')
    return t.split('<')[0]


def is_mutex(t):
    t = (t or '').replace('const ', '').replace('mutable ', '').strip(' &*')
    return t in MUTEX_T or t.startswith('std::unique_ptr<folly::RWSpinLock')


def is_guard(t):
    return tbase(t) in GUARDS


def canon(f, nid, depth=0):
    """canonical text of an object expression"""
    n = f.nodes.get(nid)
    if n is None or depth > 12:
        return '?'
    k = n['k']
    if k == 'this':
        return 'this'
    if k == 'v':
        r = refs(f).get(n['d'])
        if r:
            return canon(f, r, depth + 1)
        return n['d']
    if k == 'm':
        b = canon(f, n['b'], depth + 1) if n.get('b') else '?'
        return n['f'] if b == 'this' else b + '.' + n['f']
    if k in ('load', 'cast', 'deref', 'addr', 'paren', 'temp', 'bind'):
        return canon(f, n.get('e') or n.get('b'), depth + 1)
    if k == 'call':
        q = n.get('f', '')
        last = q.rsplit('::', 1)[-1]
        if last in ('operator->', 'operator*', 'get') and n.get('o'):
            return canon(f, n['o'], depth + 1)
        if n.get('o'):
            return canon(f, n['o'], depth + 1) + '.' + last + '()'
        return q + '()'
    if k == 'idx':
        return canon(f, n.get('b'), depth + 1) + '[]'
    return '?'


_refs = {}


def refs(f):
    """reference locals -> initialiser"""
    r = _refs.get(f.key)
    if r is None:
        r = {}
        for n in f.nodes.values():
            if n['k'] == 'decl':
                for d in n['ds']:
                    if d.get('ref') and d.get('e'):
                        r[d['d']] = d['e']
        _refs[f.key] = r
    return r


class Locks:
    def __init__(self, P, owners=()):
        self.P = P
        self.owners = frozenset(owners)     # functions that own some state without a lock
        self.shared = set()                 # (function, guard variable) of shared guards
        self.ctx = {}           # function key -> set of entry locksets
        self.acq = []           # (held, (mutex, base), f, nid)
        self.at = {}            # (fkey, nid) -> set of locksets at field access
        self.calls_at = {}      # (fkey, nid) -> set of locksets at calls of interest
        self.problems = []
        self.steps = 0
        self.waits = []
        self.returning = {}
        self.watch = lambda f, n: False
        self._guardmx = {}
        self.run()

    # -- lock sources ------------------------------------------------
    def lock_of(self, f, nid):
        """(mutex, base) named by an expression, or None"""
        n = f.nodes.get(nid)
        while n is not None and n['k'] in ('load', 'cast', 'deref', 'addr'):
            nid = n.get('e') or n.get('b')
            n = f.nodes.get(nid)
        if n is None:
            return None
        if n['k'] == 'call' and n.get('f', '').rsplit('::', 1)[-1] in ('operator*', 'operator->', 'get') and n.get('o'):
            return self.lock_of(f, n['o'])
        if n['k'] == 'm':
            if not is_mutex(n.get('t')) and not is_mutex(self.ftype(n['f'])):
                return None
            return (n['f'], canon(f, n['b']) if n.get('b') else 'this')
        if n['k'] == 'v' and is_mutex(n.get('t')):
            r = refs(f).get(n['d'])
            if r:
                return self.lock_of(f, r)
            for i, p in enumerate(f.params):
                if p['d'] == n['d']:
                    return ('param', i)
            return (n['d'], 'global')
        return None

    def ftype(self, q):
        if not hasattr(self, '_ft'):
            self._ft = {x['q']: x['t'] for r in self.P.records.values() for x in r['fields']}
        return self._ft.get(q, '')

    def guard_result(self, f, nid, depth=0):
        """lock held by the guard object an expression constructs; None if none"""
        n = f.nodes.get(nid)
        if n is None or depth > 6:
            return None
        k = n['k']
        if k in ('cast', 'load', 'bind', 'temp'):
            return self.guard_result(f, n.get('e'), depth + 1)
        if k == 'new':
            return self.guard_result(f, n.get('e') or n.get('n'), depth + 1)
        if k == 'cond':
            return self.guard_result(f, n.get('a'), depth + 1) or self.guard_result(f, n.get('b'), depth + 1)
        if k == 'ctor':
            if any('defer_lock' in (f.nodes.get(a, {}).get('n', '') or f.nodes.get(a, {}).get('t', '') or '')
                   for a in n.get('a', [])):
                return None
            for a in n.get('a', []):
                m = self.lock_of(f, a)
                if m:
                    if is_guard(n.get('t')) or self.ctor_locks(n, n['a'].index(a)):
                        return m
            for a in n.get('a', []):
                g = self.guard_result(f, a, depth + 1)
                if g:
                    return g
            return None
        if k == 'call':
            if n.get('f') == 'std::move' and n.get('a'):
                a = f.nodes.get(n['a'][0], {})
                if a.get('k') == 'v':
                    return self._guardmx.get((f.key, a['d']))
            for t in self.P.targets(n):
                m = self.returns_guard(t)
                if m:
                    mx, b = m
                    if mx == 'param':
                        return self.lock_of(f, n['a'][b]) if b < len(n.get('a', [])) else None
                    if b == 'this':
                        b = canon(f, n['o']) if n.get('o') else 'this'
                    return (mx, b)
        return None

    def ctor_locks(self, n, i):
        """a repo constructor that keeps its i-th parameter locked"""
        for t in self.P.targets(n):
            g = self.P.F[t]
            for m in g.nodes.values():
                if m['k'] == 'ctor' and is_guard(m.get('t')):
                    for a in m.get('a', []):
                        if self.lock_of(g, a) == ('param', i):
                            return True
        return False

    def returns_guard(self, t):
        if t in self.returning:
            return self.returning[t]
        self.returning[t] = None
        g = self.P.F[t]
        rt = tbase(g.ret)
        res = None
        if rt in GUARDS or self.holds_guard(rt):
            for n in g.nodes.values():
                if n['k'] == 'ret' and n.get('e'):
                    r = self.guard_result(g, n['e'])
                    if r is None:
                        e = g.nodes.get(n['e'], {})
                        while e.get('k') in ('cast', 'ctor', 'load') and (e.get('e') or e.get('a')):
                            e = g.nodes.get(e.get('e') or e['a'][0], {})
                        if e.get('k') == 'v':
                            for m in g.nodes.values():
                                if m['k'] == 'decl':
                                    for d in m['ds']:
                                        if d['d'] == e['d'] and d.get('e'):
                                            r = self.guard_result(g, d['e'])
                    res = res or r
        self.returning[t] = res
        return res

    def holds_guard(self, rec):
        rec = rec.replace('facebook::wdt::', '')
        r = self.P.records.get(rec)
        return bool(r) and any(tbase(x['t'].replace('std::unique_ptr<', '').rstrip('>*& ')) in GUARDS or is_guard(x['t'])
                               for x in r['fields'])

    # -- exploration ---------------------------------------------------
    def run(self):
        P = self.P
        callers = P.callers()
        stdlam = self.std_lambdas()
        todo = []
        for k, f in P.F.items():
            if k in stdlam:
                continue
            if not self.internal(f, callers):
                todo.append((k, frozenset()))
        self.stdlam = stdlam
        seen = set()
        while todo:
            it = todo.pop()
            if it in seen:
                continue
            seen.add(it)
            k, e = it
            self.ctx.setdefault(k, set()).add(e)
            if len(self.ctx[k]) > 40:
                raise Broken('too many lock contexts for %s' % P.F[k].qn)
            todo += self.explore(P.F[k], e)

    def internal(self, f, callers):
        """only reachable through callers seen in the program"""
        if f.lambda_:
            return any(n['k'] == 'call' and n.get('fk') == f.key for g in callers.get(f.key, ())
                       for _, n in self.P.F[g].calls())
        return f.access in (1, 2) and f.key in callers and not f.virt and not f.ctor and not f.dtor

    def std_lambdas(self):
        """lambdas run by a library call before it returns (cv predicates, algorithms)"""
        out = {}
        for k, f in self.P.F.items():
            for nid, n in f.calls():
                if n['k'] != 'call' or n.get('repo'):
                    continue
                q = n.get('f', '')
                if q.startswith('std::thread') or q.startswith('std::function') or 'async' in q:
                    continue
                if not (q.startswith('std::condition_variable') or q in ALGOS):
                    continue
                for a in n.get('a', []):
                    for s in f.subnodes(a):
                        if f.nodes[s]['k'] == 'lam':
                            out[f.nodes[s]['fk']] = (k, nid)
        return out

    def guards(self, f):
        """guard variables of f -> (mutex, base)"""
        r = {}
        for n in f.nodes.values():
            if n['k'] == 'decl':
                for d in n['ds']:
                    t = tbase(d['t']).replace('facebook::wdt::', '')
                    if d.get('e') and not d.get('ref') and (t in GUARDS or self.holds_guard(t)):
                        m = self.guard_result(f, d['e'])
                        self._guardmx[(f.key, d['d'])] = m
                        # a deferred guard still names its mutex
                        if m is None:
                            e = f.nodes.get(d['e'], {})
                            for a in e.get('a', []) if isinstance(e.get('a'), list) else []:
                                m2 = self.lock_of(f, a)
                                if m2:
                                    r[d['d']] = (m2, False)
                        else:
                            r[d['d']] = (m, True)
        return r

    def explore(self, f, entry):
        P = self.P
        out = []
        g = self.guards(f)
        start = frozenset(entry)
        if f.ctor or f.dtor:
            start |= {('#ctor', 'this', 'ctor')}
        if f.qn in self.owners:
            start |= {('#own ' + f.qn, 'this', 'own')}
        ins = {f.entry: {start}}
        work = [f.entry]
        done = set()
        rpo = f.rpo()
        while work:
            b = min(work, key=lambda x: rpo.get(x, 0))
            work.remove(b)
            states = ins[b]
            for st in list(states):
                if (b, st) in done:
                    continue
                done.add((b, st))
                self.steps += 1
                cur = st
                for e in f.blocks[b]['e']:
                    cur, c = self.step(f, e, cur, g, entry)
                    out += c
                if b == f.exit:
                    self.at_exit(f, cur, entry)
                for s in f.blocks[b]['s']:
                    if s < 0:
                        continue
                    if cur not in ins.setdefault(s, set()):
                        ins[s].add(cur)
                        if s not in work:
                            work.append(s)
        return out

    def at_exit(self, f, st, entry):
        left = {x for x in st if x not in entry and x[2] == 'manual'}
        for m, b, h in left:
            self.problems.append(('leak', '%s returns with %s still locked' % (f.qn, m), f, None, m))
        for m, b, h in set(entry) - set(st):
            if h == 'manual':
                pass

    def step(self, f, e, st, g, entry):
        n = f.nodes[e]
        k = n['k']
        out = []
        if k == 'm' or k == 'idx' or k == 'v':
            self.at.setdefault((f.key, e), set()).add(st)
        if k == 'lam' and n['fk'] in self.P.F:
            pass
        if k == 'decl':
            for d in n['ds']:
                if d['d'] in g and d.get('e'):
                    (m, b), on = g[d['d']]
                    if on:
                        sh = tbase(d['t']) == 'std::shared_lock'
                        st = self.acquire(f, e, st, m, b, ('s!' if sh else '') + d['d'])
        elif k == 'dtor':
            d = n.get('d')
            if d in g:
                st = frozenset(x for x in st if x[2] not in (d, 's!' + str(d)))
        elif k in ('call', 'ctor'):
            q = n.get('f', '')
            last = q.rsplit('::', 1)[-1]
            if k == 'call' and n.get('o') and last in ('lock', 'unlock', 'try_lock', 'lock_shared', 'unlock_shared',
                                                       'unlock_and_lock', 'release'):
                o = f.nodes.get(n['o'], {})
                if o.get('k') == 'v' and o.get('d') in g:
                    (m, b), _ = g[o['d']]
                    if last in ('unlock', 'release'):
                        if not any(x[2] in (o['d'], 's!' + o['d']) for x in st):
                            self.problems.append(('unlock', '%s unlocks %s which is not locked there' % (f.qn, m), f, e, m))
                        st = frozenset(x for x in st if x[2] not in (o['d'], 's!' + o['d']))
                    elif last == 'lock':
                        st = self.acquire(f, e, st, m, b, o['d'])
                    return st, out
                l = self.lock_of(f, n['o'])
                if l and l[0] != 'param':
                    if last.startswith('unlock') or last == 'release':
                        if not any(x[0] == l[0] for x in st):
                            self.problems.append(('unlock', '%s unlocks %s which is not locked there' % (f.qn, l[0]), f, e, l[0]))
                        st = frozenset(x for x in st if not (x[0] == l[0] and x[2] == 'manual'))
                    elif last != 'try_lock':
                        st = self.acquire(f, e, st, l[0], l[1], 'manual')
                    return st, out
            if q.startswith('std::condition_variable') and last.startswith('wait'):
                self.waits.append((f, e, st))
            self.calls_at.setdefault((f.key, e), set()).add(st)
            base = canon(f, n['o']) if n.get('o') else ('this' if k == 'call' else '?')
            for t in self.P.targets(n):
                out.append((t, self.translate(st, base, self.P.F[t])))
            for t, (fk, nid) in self.stdlam_at(f, e):
                out.append((t, st))
        return st, out

    def stdlam_at(self, f, e):
        return [(t, v) for t, v in self.stdlam.items() if v == (f.key, e)]

    def translate(self, st, base, g):
        r = set()
        for m, b, h in st:
            if m == '#ctor' and base != 'this':
                continue
            h = 'caller' if not h.startswith('s!') else 's!caller'
            if m.startswith('#own'):
                if base == 'this':
                    r.add((m, b, h))
            elif b == 'global':
                r.add((m, b, h))
            elif b == base:
                r.add((m, 'this', h))
            elif b == 'this':
                r.add((m, '^', h))
            else:
                r.add((m, '^', h))
        return frozenset(r)

    def acquire(self, f, e, st, m, b, h):
        if m == 'param':
            return st
        self.acq.append((st, (m, b), f, e))
        return st | {(m, b, h)}

    def must(self, key, exclusive=False):
        """locks held on every path at a node"""
        s = self.at.get(key) or self.calls_at.get(key)
        if not s:
            return None
        r = None
        for x in s:
            y = {(m, b) for m, b, h in x if not (exclusive and h.startswith('s!'))}
            r = y if r is None else r & y
        return r


ALGOS = {'std::' + x for x in ('for_each', 'find_if', 'find_if_not', 'any_of', 'all_of', 'none_of', 'count_if', 'sort',
                               'stable_sort', 'remove_if', 'transform', 'accumulate', 'min_element', 'max_element',
                               'partition', 'call_once', 'copy_if', 'unique', 'lower_bound', 'upper_bound', 'generate')}

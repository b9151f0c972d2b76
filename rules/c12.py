"""C12: locks are balanced, ordered, not held while blocking."""
import re
from wdtsa.locks import *
from wdtsa.program import Broken
from rules.c11 import OWNERS

EXPLAIN = ('The interprocedural lockset dataflow records every acquisition, release, wait, join and blocking call with the '
           'locks held there in every calling context. Checked: no function returns with a manually taken lock, nothing '
           'is unlocked that is not held, no non-recursive lock is taken twice, the order in which locks are taken is '
           'acyclic, a condition wait holds exactly the lock it waits with, only the session lifecycle locks are held '
           'across blocking calls, and no thread is joined while holding a lock that thread takes.')
RULE = 'path-sensitive lockset typestate; acyclicity of the lock-order graph over all calling contexts'
ASSUME = ['two objects of one class are locked together only by += / << on statistics, whose operands are distinct']

RECURSIVE = ('std::recursive_mutex',)
# two objects of the class are combined, one locked for writing and one for reading
PAIRED = {'TransferStats::mutex_', 'PerfStatReport::mutex_', 'WdtControllerBase::controllerMutex_'}
# locks that serialise whole-session steps and are meant to be held across slow calls
LIFECYCLE = {'WdtBase::instanceManagementMutex_', 'ExecuteOnceFunc::mutex_'}
BLOCKING = {'read', 'write', 'pread', 'pwrite', 'poll', 'connect', 'accept', 'accept4', 'fsync', 'fdatasync', 'posix_fallocate',
            'open', 'ftruncate', 'sync_file_range', 'usleep', 'sleep', 'nanosleep', 'opendir', 'readdir', 'getaddrinfo', 'send',
            'recv', 'mkdir', 'unlink', 'stat', 'lstat'}


def mutex_type(P, L, m):
    t = L.ftype(m)
    if not t:
        for f in P.F.values():
            for n in f.nodes.values():
                if n['k'] == 'v' and n.get('d') == m:
                    return n.get('t', '')
    return t


def thread_entries(P, f, e, depth=0):
    """functions started by an expression that makes a thread"""
    out = set()
    if depth > 6:
        return out
    for s in f.subnodes(e):
        n = f.nodes[s]
        if n['k'] in ('mf', 'fn', 'lam') and n.get('fk'):
            if n['fk'] in P.F:
                out.add(n['fk'])
            out |= {t for t in P.impls(n['fk']) if t in P.F}
        if n['k'] == 'v' and 'thread' in n.get('t', ''):
            for y, m in f.nodes.items():
                if m['k'] != 'decl':
                    continue
                for d in m['ds']:
                    if d['d'] == n['d'] and d.get('e') and s not in f.subnodes(d['e']):
                        out |= thread_entries(P, f, d['e'], depth + 1)
        if n['k'] == 'call' and n.get('repo') and 'thread' in n.get('t', ''):
            for t in P.targets(n):
                g = P.F[t]
                for y, m in g.nodes.items():
                    if m['k'] == 'ret' and m.get('e'):
                        out |= thread_entries(P, g, m['e'], depth + 1)
    return out


def run(P, c):
    L = Locks(P, OWNERS)
    c.counts['lock_states'] = L.steps
    c.funcs |= set(L.ctx)
    c.floor('acquisitions', len({(f.key, e) for _, _, f, e in L.acq}), 100)
    for kind, msg, f, e, m in L.problems:
        c.violation('%s %s %s' % (kind, f.qn, m), msg, f.loc(e) if e else f.loc())
    c.oblige('every lock is released on every path', not L.problems)
    # double acquisition
    for st, (m, b), f, e in L.acq:
        t = mutex_type(P, L, m)
        rec = tbase(t) in RECURSIVE
        for mm, bb, h in st:
            if mm != m or rec:
                continue
            if bb == b and b != '?':
                sh = h.startswith('s!') and shared_at(f, e)
                c.check(sh, 'double %s in %s' % (m, f.qn), '%s takes %s which is already held' % (f.qn, m), f.loc(e))
            elif b == 'global':
                c.violation('double %s in %s' % (m, f.qn), '%s takes %s which is already held' % (f.qn, m), f.loc(e))
    c.oblige('no lock is taken twice')
    # order
    g = {}
    where = {}
    for st, (m, b), f, e in L.acq:
        for mm, bb, h in st:
            if mm.startswith('#'):
                continue
            if mm == m:
                if m not in PAIRED and bb != b:
                    c.violation('order %s %s' % (mm, m), 'two locks %s of different objects are nested in %s' % (m, f.qn), f.loc(e))
                continue
            g.setdefault(mm, set()).add(m)
            where.setdefault((mm, m), (f, e))
    c.floor('order_edges', sum(map(len, g.values())), 15)
    for a in sorted(g):
        for b in sorted(g[a]):
            cyc = path(g, b, a)
            f, e = where[(a, b)]
            c.check(not cyc, 'order %s -> %s' % (a, b),
                    '%s takes %s while holding %s, elsewhere they are taken in the other order (%s)' %
                    (f.qn, b, a, ' -> '.join(cyc or [])), f.loc(e))
    # waits
    nw = 0
    for f, e, st in L.waits:
        n = f.nodes[e]
        a = f.nodes[n['a'][0]]
        held = {(m, b, h) for m, b, h in st if not m.startswith('#')}
        if a['k'] == 'v' and a['d'] in L.guards(f):
            nw += 1
            c.check(any(h == a['d'] for _, _, h in held), 'wait lock %s' % f.qn, 'a condition wait runs with its lock released', f.loc(e))
            rest = {m for m, b, h in held if h != a['d']}
        else:
            own = (f.cls or '')
            # a wrapper that keeps the lock in a member: at most the caller's one lock is held
            rest = set() if len({m for m, b, h in held}) <= 1 else {m for m, b, h in held}
        c.check(not rest, 'wait holding %s' % f.qn, 'a condition wait in %s keeps %s locked' % (f.qn, ', '.join(sorted(rest))), f.loc(e))
    c.floor('waits', nw, 9)
    # blocking calls
    nb = nj = 0
    joins = []
    for (fk, nid), sts in sorted(L.calls_at.items()):
        f = P.F[fk]
        n = f.nodes[nid]
        if n.get('repo') or n['k'] != 'call':
            continue
        q = n.get('f', '')
        if q == 'std::thread::join':
            joins.append((f, nid, n, sts))
        if not (q in BLOCKING or 'sleep_for' in q or 'sleep_until' in q):
            continue
        if q == 'usleep' and f.cls == 'PeriodicCounters':
            continue
        nb += 1
        for st in sts:
            bad = sorted(m for m, b, h in st if not m.startswith('#') and m not in LIFECYCLE)
            c.check(not bad, 'blocking %s in %s' % (q, f.qn), '%s is called with %s held' % (q, ', '.join(bad)), f.loc(nid))
    c.floor('blocking_calls', nb, 20)
    # joins
    ent = {}
    for f in P.F.values():
        for nid, n in f.nodes.items():
            tgt = None
            if n['k'] == 'assign' or n['k'] == 'call' and n.get('oc') and n.get('f', '').endswith('operator='):
                lhs = n.get('o') if n['k'] == 'call' else n['a']
                if n['k'] == 'call' and not lhs:
                    continue
                rhs = n['a'][0] if n['k'] == 'call' else n['b']
                x = f.nodes.get(lhs, {})
                if x.get('k') == 'm' and 'thread' in x.get('t', ''):
                    ent.setdefault(x['f'], set()).update(thread_entries(P, f, rhs))
            if n['k'] == 'minit' and n.get('e') and 'hread' in str(n.get('f', '')):
                r = thread_entries(P, f, n['e'])
                if r:
                    ent.setdefault(n['f'], set()).update(r)
            if n['k'] == 'call' and n.get('o') and n.get('f', '').endswith('::reset') and n.get('a'):
                x = f.nodes.get(n['o'], {})
                if x.get('k') == 'm' and 'std::thread' in x.get('t', ''):
                    ent.setdefault(x['f'], set()).update(thread_entries(P, f, n['a'][0]))
    acqs = {}
    for st, (m, b), f, e in L.acq:
        acqs.setdefault(f.key, set()).add(m)
    for f, nid, n, sts in joins:
        nj += 1
        if not any(st for st in sts):
            continue
        q = joined(f, n['o'])
        es = ent.get(q)
        c.need(es, 'cannot tell which thread %s joins' % f.qn)
        reach = set()
        for x in es:
            reach |= P.transitive_callees(x)
        takes = set()
        for x in reach:
            takes |= acqs.get(x, set())
        for st in sts:
            bad = sorted({m for m, b, h in st} & takes)
            c.check(not bad, 'join in %s' % f.qn, '%s joins a thread while holding %s which that thread takes' %
                    (f.qn, ', '.join(bad)), f.loc(nid))
    c.floor('joins', nj, 5)


def joined(f, o):
    n = f.nodes.get(o, {})
    for _ in range(8):
        if n.get('k') == 'm':
            return n['f']
        x = n.get('o') or n.get('e') or n.get('b')
        if n.get('k') == 'v':
            return n['d']
        n = f.nodes.get(x, {})
    return None


def shared_at(f, e):
    n = f.nodes[e]
    return n['k'] == 'decl' and any(tbase(d['t']) == 'std::shared_lock' for d in n['ds'])


def path(g, a, b):
    prev = {a: None}
    todo = [a]
    while todo:
        x = todo.pop(0)
        if x == b:
            r = []
            while x is not None:
                r.append(x)
                x = prev[x]
            return r[::-1]
        for y in g.get(x, ()):
            if y not in prev:
                prev[y] = x
                todo.append(y)
    return None

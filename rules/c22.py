"""C22: the resource controller's counts equal what is registered, and quotas hold."""
from wdtsa.engine import *

EXPLAIN = ('The counters of every namespace are compared with a ghost count of the entries of its map at every exit; the '
           'counters of the root controller with a ghost that sums what the namespace controllers were asked to add and '
           'gave back. A count may only grow where the limit was tested in the same lock section. The entry points that '
           'register a sender or receiver are explored to show that every path that fails or finishes unregisters it, '
           'and a running one is never unregistered for a request that is refused.')
RULE = 'ghost-counter dataflow over the controllers; registration typestate over the Wdt entry points'
ASSUME = ['a namespace is not deregistered while a sender or receiver is being created in it',
          'applications that create senders through createWdtSender release them through releaseWdtSender']

CB = 'WdtControllerBase::'
T = ('P', THIS)


def fld(n):
    return ('F', T, n)


KIND = {'Sender': (fld(CB + 'numSenders_'), fld(CB + 'maxNumSenders_')),
        'Receiver': (fld(CB + 'numReceivers_'), fld(CB + 'maxNumReceivers_'))}
MAPS = {'WdtNamespaceController::sendersMap_': 'Sender', 'WdtNamespaceController::receiversMap_': 'Receiver'}
FOUND = ('sym', 'found')


def base(n):
    return n.get('f', '').rsplit('::', 1)[-1]


class Counts(Rule):
    lock_havoc = False
    affine = True
    K = 16
    maxdepth = 5

    def __init__(self, prog):
        super().__init__(prog)
        self.root = False

    def init(self):
        return ()

    def g(self, kind, what):
        return ('G', (what, kind))

    def is_event(self, f, nid, n):
        if n['k'] in ('ctor', 'dtor') and self.is_guard(n):
            return True
        return n['k'] == 'call' and (n.get('f', '').startswith('WdtNamespaceController::') or base(n) == 'find')

    def is_guard(self, n):
        r = n.get('rec', '') or n.get('t', '')
        return any(x in r for x in ('std::unique_lock', 'std::lock_guard', 'std::scoped_lock'))

    def should_inline(self, k):
        f = self.prog.F[k]
        if f.name in ('getNamespaceController', 'createNamespaceController'):
            return False
        return f.cls in ('WdtNamespaceController', 'WdtResourceController', 'WdtControllerBase')

    def within(self, st, kind):
        """the limit was tested"""
        num, mx = (st.read(x) for x in KIND[kind])
        if TOP in (num, mx):
            return False
        t = st.truth(cmp_('<=', mx, ZERO))
        return t is True or st.truth(cmp_('<', num, mx)) is True

    def part(self, st):
        return tuple(self.within(st, k) for k in KIND) + tuple(st.store.get(self.g(k, w)) for k in KIND for w in ('found', 'quota', 'diff')) + (st.store.get(('G', 'depth')),)

    def hints(self, st):
        r = []
        for k in KIND:
            a, m = st.read(KIND[k][0]), st.read(KIND[k][1])
            r += [ZERO, ZERO] if TOP in (a, m) else [cmp_('<', a, m), cmp_('<=', m, ZERO)]
        return r

    def depth(self, st, d):
        v = st.store.get(('G', 'depth'), ZERO)
        n = v[1] if v[0] == 'c' else 0
        st.store[('G', 'depth')] = const(n + d)
        return n

    def on_ctor(self, en, st, f, fid, nid, n, args):
        if not self.is_guard(n) or not args:
            return None
        if self.depth(st, 1) == 0:
            self.count('lock_sections')
            # other threads may have run: same accounts, new numbers
            for k, (num, mx) in KIND.items():
                st.write(mx, en.fresh(st, fid, nid, 'max' + k))
                st.store[self.g(k, 'found')] = st.store[self.g(k, 'quota')] = ZERO
                st.store[num] = en.fresh(st, fid, nid, 'num' + k)
        return None

    def on_dtor(self, en, st, f, fid, nid, n, loc):
        if self.is_guard(n):
            self.depth(st, -1)
        return None

    def resize(self, st, kind, by):
        """diff: what is registered minus what is counted"""
        a = st.store.get(self.g(kind, 'diff'), TOP)
        x = ladd(a, by) if TOP not in (a, by) else TOP
        st.store[self.g(kind, 'diff')] = TOP if x != TOP and x[0] == 'c' and abs(x[1]) > 3 else x

    def kind(self, obj):
        return MAPS.get(obj[2]) if obj and obj[0] == 'F' else None

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        q, b = n.get('f', ''), base(n)
        if b == 'unlock' and 'lock' in q.lower():
            self.depth(st, -1)
            return None
        kind = self.kind(obj)
        if kind:
            self.count('map_operations')
            if b in ('find', 'count', 'contains'):
                a = st.copy()
                a.store[self.g(kind, 'found')] = const(1)
                st.store[self.g(kind, 'found')] = const(2)
                hit, miss = (FOUND, ZERO) if b == 'find' else (ONE, ZERO)
                return [(a, hit), (st, miss)]
            if b in ('end', 'cend'):
                return [(st, ZERO)]
            if b in ('operator[]', 'emplace', 'try_emplace', 'insert', 'insert_or_assign'):
                self.count('insertions')
                self.added(en, st, f, nid, kind)
                if b == 'operator[]':
                    return None
                return None
            if b == 'erase':
                self.count('removals')
                self.resize(st, kind, const(-1))
                return None
            if b == 'clear':
                st.store[self.g(kind, 'diff')] = ('sym', 'cleared')
                return None
            if b in ('begin', 'cbegin', 'size', 'empty', 'operator='):
                return None
        if b in ('operator==', 'operator!=') and 'iterator' in n.get('fk', ''):
            xs = ([st.read(obj)] if obj else []) + [st.read(a[1]) if a != TOP and a[0] == 'addr' else a for a in args]
            if len(xs) == 2 and ZERO in xs and FOUND in xs or xs == [ZERO, ZERO]:
                same = xs[0] == xs[1]
                return [(st, ONE if same == (b == 'operator==') else ZERO)]
            return [(st, ONE), (st.copy(), ZERO)]
        return self.other(en, st, f, fid, nid, n, obj, args, q, b)

    def other(self, en, st, f, fid, nid, n, obj, args, q, b):
        return None

    def added(self, en, st, f, nid, kind):
        if st.store.get(self.g(kind, 'found')) != const(2):
            self.report('%s: replaced' % f.qn, 'an entry is added without knowing that its key is free, so a registered %s may be lost and counted twice' % kind.lower(), st, f.loc(nid))
        if st.store.get(self.g(kind, 'quota')) != ONE and not self.within(st, kind):
            self.report('%s: limit' % f.qn, 'a %s is added although the limit of the namespace was not tested in the same lock section' % kind.lower(), st, f.loc(nid))
        self.resize(st, kind, ONE)

    def on_write(self, en, st, f, nid, n, loc, v):
        for k, (num, mx) in KIND.items():
            if loc == num:
                self.count('counter_updates')
                old = st.read(num)
                d = st.store.get(self.g(k, 'diff'), TOP)
                if d == ('sym', 'cleared') and v == ZERO:
                    st.store[self.g(k, 'diff')] = ZERO
                else:
                    self.resize(st, k, ladd(old, v, -1) if TOP not in (old, v) else TOP)
                if self.within(st, k):
                    st.store[self.g(k, 'quota')] = ONE
                if self.root and TOP not in (old, v) and st.truth(cmp_('>', v, old)) is not False and not self.within(st, k):
                    self.report('%s: limit' % f.qn, 'the count of %ss grows although the limit was not tested in the same lock section' % k.lower(), st, f.loc(nid))

    def on_exit(self, en, st, fn, ret):
        self.count('exits')
        for k, (num, mx) in KIND.items():
            d = st.store.get(self.g(k, 'diff'), TOP)
            if d == TOP or st.truth(cmp_('==', d, ZERO)) is not True:
                self.report('%s: %s count' % (fn.qn, k), 'the count of %ss may differ from the %ss that are registered' % (k.lower(), k.lower()), st, fn.loc())


class Root(Counts):
    def __init__(self, prog):
        super().__init__(prog)
        self.root = True

    def should_inline(self, k):
        return self.prog.F[k].cls != 'WdtNamespaceController' and super().should_inline(k)

    def other(self, en, st, f, fid, nid, n, obj, args, q, b):
        cls = q.rpartition('::')[0]
        if b == 'getNamespaceController':
            a = st.copy()
            v = en.fresh(a, fid, nid, 'controller')
            a.assume(cmp_('!=', v, ZERO))
            return [(a, v), (st, ZERO)]
        if b == 'createNamespaceController':
            v = en.fresh(st, fid, nid, 'controller')
            st.assume(cmp_('!=', v, ZERO))
            return [(st, v)]
        if cls != 'WdtNamespaceController':
            return None
        for k in KIND:
            if b == 'create' + k:
                self.count('requests')
                d = st.store.get(self.g(k, 'diff'), TOP)
                if d == TOP or st.truth(cmp_('==', d, const(-1))) is not True:
                    self.report('%s: reserved' % f.qn, 'a %s is created that was not counted against the global limit before' % k.lower(), st, f.loc(nid))
                en.havoc_args(st, f, fid, nid, n, args)
                bad = st.copy()
                v = en.fresh(bad, fid, nid, 'code')
                bad.assume(cmp_('!=', v, ZERO))
                self.resize(st, k, ONE)
                return [(st, ZERO), (bad, v)]
            if b == 'release' + k:
                self.count('requests')
                bad = st.copy()
                v = en.fresh(bad, fid, nid, 'code')
                bad.assume(cmp_('!=', v, ZERO))
                self.resize(st, k, const(-1))
                return [(st, ZERO), (bad, v)]
            if b == 'releaseAll' + k + 's':
                self.count('requests')
                v = en.fresh(st, fid, nid, 'released')
                st.assume(cmp_('>=', v, ZERO))
                self.resize(st, k, ladd(ZERO, v, -1))
                return [(st, v)]
            if b == 'releaseStale' + k + 's':
                self.count('requests')
                v = en.fresh(st, fid, nid, 'released')
                st.assume(cmp_('>=', v, ZERO))
                self.resize(st, k, ladd(ZERO, v, -1))
                st.store[('G', 'ids')] = v
                return [(st, ('pure', 'ids', v))]
            if b == 'has%sQuota' % k:
                return [(st, ONE), (st.copy(), ZERO)]
        return None


    def on_call(self, en, st, f, fid, nid, n, obj, args):
        b = base(n)
        if b in ('size', 'empty') and 'vector' in n.get('f', '') and obj:
            v = st.read(obj)
            if v != TOP and v[0] == 'pure' and v[1] == 'ids':
                return [(st, v[2] if b == 'size' else ('bool', cmp_('==', v[2], ZERO)))]
        if b == 'operator=' and 'vector' in n.get('f', '') and obj and args:
            v = args[0] if args[0] == TOP or args[0][0] != 'addr' else st.read(args[0][1])
            if v != TOP and v[0] == 'pure':
                st.write(obj, v)
                return [(st, ('addr', obj))]
        return super().on_call(en, st, f, fid, nid, n, obj, args)


class Reg(Rule):
    """entry points: what they register is unregistered unless it is handed to the caller"""
    lock_havoc = False
    K = 16
    maxdepth = 4

    def init(self):
        return ()

    def is_event(self, f, nid, n):
        return n['k'] == 'call' and (n.get('rec') == 'WdtResourceController' or base(n) in ('finish', 'transfer', 'transferAsync', 'init', 'abort'))

    def should_inline(self, k):
        f = self.prog.F[k]
        return f.cls == 'Wdt' and f.name not in ('getSenderIdentifier', 'wdtSetAbortSocketCreatorAndReporter', 'getWdtOptions')

    def part(self, st):
        return tuple(st.store.get(('G', x)) for x in ('own', 'other', 'started', 'aborted', 'code', 'initcode'))

    def plain(self, st, v):
        for _ in range(3):
            if v != TOP and v[0] == 'addr' and v[1][0] in ('L', 'T'):
                w = st.read(v[1])
                if w == TOP:
                    return v
                v = w
        return v

    def key(self, st, args):
        return self.plain(st, args[0]), self.plain(st, args[1])

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        b, q = base(n), n.get('f', '')
        G = st.store
        if q == 'Wdt::getSenderIdentifier':
            return [(st, ('pure', 'id', self.plain(st, args[0])))]
        if n.get('rec') == 'WdtResourceController':
            if b in ('createSender', 'createReceiver'):
                self.count('registrations')
                if G.get(('G', 'own')) == ONE:
                    self.report('%s: twice' % f.qn, 'a second one is registered while the first is still registered', st, f.loc(nid))
                en.havoc_args(st, f, fid, nid, n, args)
                G[('G', 'key')] = ('pure', 'key', self.key(st, args))
                bad, old = st.copy(), st.copy()
                v = en.fresh(bad, fid, nid, 'code')
                bad.assume(cmp_('!=', v, ZERO))
                bad.assume(cmp_('!=', v, self.exists))
                old.store[('G', 'other')] = ONE
                out = [(st, ZERO), (bad, v)]
                if G.get(('G', 'other')) != const(2):
                    out.append((old, self.exists))
                G[('G', 'own')] = ONE
                return out
            if b in ('getReceiver', 'getSender'):
                self.count('lookups')
                a = st.copy()
                v = en.fresh(a, fid, nid, 'found')
                a.assume(cmp_('!=', v, ZERO))
                a.store[('G', 'own')] = ONE
                a.store[('G', 'key')] = ('pure', 'key', self.key(st, args))
                return [(a, v), (st, ZERO)]
            if b in ('releaseSender', 'releaseReceiver'):
                self.count('releases')
                k = G.get(('G', 'key'))
                if k is not None and k[2] != self.key(st, args):
                    self.report('%s: key' % f.qn, 'what is unregistered has another name than what was registered', st, f.loc(nid))
                if G.get(('G', 'own')) == ONE:
                    if G.get(('G', 'started')) == ONE:
                        self.report('%s: running' % f.qn, 'it is unregistered while its transfer is running', st, f.loc(nid))
                    G[('G', 'own')] = ZERO
                elif G.get(('G', 'other')) == ONE:
                    if G.get(('G', 'aborted')) != ONE:
                        self.report('%s: not aborted' % f.qn, 'the one registered before is unregistered without being aborted', st, f.loc(nid))
                    G[('G', 'other')] = const(2)
                bad = st.copy()
                return [(st, ZERO), (bad, ONE)]
        if b == 'abort':
            G[('G', 'aborted')] = ONE
            return [(st, ZERO)]
        if b == 'transferAsync':
            self.count('starts')
            bad = st.copy()
            G[('G', 'started')] = ONE
            v = en.fresh(bad, fid, nid, 'code')
            bad.assume(cmp_('!=', v, ZERO))
            bad.store[('G', 'started')] = const(2)
            return [(st, ZERO), (bad, v)]
        if b in ('finish', 'transfer') and n.get('rec') in ('Receiver', 'Sender', 'WdtBase'):
            self.count('finishes')
            G[('G', 'started')] = const(3)
        return None

    def on_exit(self, en, st, fn, ret):
        self.count('exits')
        own, started = st.store.get(('G', 'own')), st.store.get(('G', 'started'))
        if self.keeps:
            if own == ONE and started not in (ONE, const(2)):
                self.report('%s: kept' % fn.qn, 'a failed start leaves it registered, so its share of the limits is lost', st, fn.loc())
            if own != ONE and (ret == TOP or st.truth(cmp_('==', ret, ZERO)) is not False):
                self.report('%s: success' % fn.qn, 'success is reported although nothing is registered', st, fn.loc())
        elif own == ONE:
            self.report('%s: kept' % fn.qn, 'a path ends with it still registered, so its share of the limits is lost', st, fn.loc())


def run(P, c):
    def go(r, f):
        def setup(st, fn, fid):
            for k, (num, mx) in KIND.items():
                st.store[num] = ('sym', 'num' + k)
                st.store[r.g(k, 'diff')] = ZERO
                st.store[mx] = ('sym', 'max' + k)
        c.explore(r, f.key, setup=setup)
        c.need(r.stats.get('exits') or r.viol, 'no exit of %s reached' % f.qn)
        c.oblige('%s keeps its counts' % f.qn, not r.viol)
        c.absorb(r)
        for k, v in r.stats.items():
            c.count(k, v)
    for f in sorted({f.key: f for f in P.F.values() if f.cls == 'WdtNamespaceController' and f.name not in (f.cls, '~' + f.cls)}.values(), key=lambda f: f.qn):
        go(Counts(P), f)
    c.need(c.counts.get('insertions', 0) >= 2 and c.counts.get('removals', 0) >= 2, 'no insertions or removals found')
    for f in sorted({f.key: f for f in P.F.values() if f.cls == 'WdtResourceController' and f.name not in (f.cls, '~' + f.cls, 'get', 'shutdown', 'deRegisterWdtNamespace')}.values(), key=lambda f: f.qn):
        go(Root(P), f)
    for q in ('WdtResourceController::deRegisterWdtNamespace', 'WdtResourceController::shutdown'):
        go(Root(P), P.fn(q))
    for q, keeps in (('Wdt::wdtSend', False), ('Wdt::wdtReceiveStart', True), ('Wdt::wdtReceiveFinish', False)):
        for f in P.fns(q):
            r = Reg(P)
            r.keeps = keeps
            r.exists = const(P.enum('ErrorCode')['ALREADY_EXISTS'])
            c.explore(r, f.key)
            c.need(r.stats.get('exits') or r.viol, 'no exit of %s reached' % f.qn)
            c.oblige('%s leaves nothing registered that it should not' % f.qn, not r.viol)
            c.absorb(r)
            for k, v in r.stats.items():
                c.count(k, v)
    c.need(c.counts.get('releases', 0) >= 3 and c.counts.get('registrations', 0) >= 2, 'no registrations found')

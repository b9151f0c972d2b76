"""C09: a block is never lost between discovery, queue, thread and history."""
from wdtsa.engine import *
from wdtsa.foreach import ForEach

EXPLAIN = ('Every function that creates, moves or destroys a block (a unique_ptr<ByteSource>) is explored path by path with '
           'each block as a typestate token. A token that is overwritten, popped or destroyed must first have been put in the '
           'queue or a history, handed to a function that does so, returned, or have its statistics recorded as failed; the '
           'counters of the queue change by exactly the number of blocks that entered or left it.')
RULE = 'linear-ownership typestate for blocks; counter delta equals token delta on every path'
ASSUME = ['standard containers keep what is put into them']

UP = 'std::unique_ptr<ByteSource'
QUEUE = 'DirectorySourceQueue::sourceQueue_'
HIST = 'ThreadTransferHistory::history_'
FAILED = 'DirectorySourceQueue::failedSourceStats_'
DEQ = 'DirectorySourceQueue::numBlocksDequeued_'
NB = 'DirectorySourceQueue::numBlocks_'
PUT = ('push', 'push_back', 'emplace_back', 'emplace', 'insert')


def tok(f, nid, tag=''):
    return ('sym', 'tok:%s:%s%s' % (f.qn, nid, tag))


def is_tok(v):
    return v != TOP and v[0] == 'sym' and isinstance(v[1], str) and v[1].startswith('tok:')


class Own(Rule):
    lock_havoc = False
    affine = True
    K = 16

    def part(self, st):
        return st.store.get(('G', 'put')) == ZERO

    opaque = frozenset({'SenderThread::sendOneByteSource'})
    vec = 'DirectorySourceQueue::returnToQueue'
    consumes = {'ThreadTransferHistory::addSource', 'DirectorySourceQueue::returnToQueue'}
    entry = None
    param = None            # token handed in by reference
    range_param = False

    def init(self):
        return frozenset()

    def is_event(self, f, nid, n):
        return UP in n.get('f', '') and n['k'] in ('call', 'ctor') or n.get('f') in self.consumes

    # -- tokens ----------------------------------------------------
    def put(self, st, t, how):
        st.rs = frozenset((a, b) for a, b in st.rs if a != t) | {(t, how)}

    def how(self, st, t):
        for a, b in st.rs:
            if a == t:
                return b
        return None

    def new(self, st, f, nid, n, how='held', tag=''):
        t = tok(f, nid, tag)
        if self.how(st, t) == 'held':
            self.lost(st, t, f, nid, 'is replaced by another block')
        self.put(st, t, how)
        st.assume(cmp_('>', t, ZERO))
        self.count('blocks')
        return t

    def lost(self, st, t, f, nid, what):
        self.report('%s: block lost' % f.qn, 'a block in %s %s without being queued, kept or counted as failed' % (f.qn, what),
                    st, f.loc(nid))

    def take(self, st, f, e, v):
        """token designated by an rvalue argument, source emptied"""
        if v == TOP:
            return None
        if is_tok(v):
            return v
        loc = to_loc(v)
        x = st.read(loc)
        if is_tok(x):
            st.write(loc, ZERO)
            return x
        return None

    def member(self, obj):
        return obj[2] if obj and obj[0] == 'F' else None

    def bump(self, st, key, d):
        g = ('G', key)
        v = st.store.get(g, ZERO)
        st.store[g] = ladd(v, const(d))

    # -- hooks -----------------------------------------------------
    def on_call(self, en, st, f, fid, nid, n, obj, args):
        q = n.get('f', '')
        base = q.rsplit('::', 1)[-1]
        m = self.member(obj)
        if q == 'std::make_unique' and 'ByteSource' in n.get('t', '') and 'unique_ptr' in n.get('t', ''):
            return [(st, self.new(st, f, nid, n))]
        if q in self.consumes and (not self.entry == q or st.stack[0][0] != n.get('fk')):
            if args and args[0] != TOP:
                loc = to_loc(args[0])
                v = st.read(loc)
                done = False
                if is_tok(v):
                    self.count('handed_over')
                    st.write(loc, ZERO)
                    self.put(st, v, 'gone')
                    self.bump(st, 'ret', 1)
                for a, b in list(st.rs):
                    if b == ('in', loc):
                        self.put(st, a, 'gone')
                        self.count('handed_over')
            return [(st, en.fresh(st, fid, nid, 'ret', n.get('t', '')))]
        if n.get('virt') and base == 'getNextSource':
            self.count('taken')
            a = st
            b = st.copy()
            for s in (a, b):
                en.havoc_args(s, f, fid, nid, n, args)
            return [(a, self.new(a, f, nid, n)), (b, ZERO)]
        if obj is None or (UP not in q and not (m == FAILED)):
            return None
        if 'std::vector<' in q or 'std::priority_queue<' in q:
            if base in PUT and args:
                if m == FAILED:
                    return None
                t = self.take(st, f, n['a'][-1], args[-1])
                if t is None:
                    raise Broken('cannot tell which block is stored in %s' % f.loc(nid))
                self.count('stored')
                if m in (QUEUE, HIST):
                    self.put(st, t, 'gone')
                    self.bump(st, 'put', 1)
                else:
                    self.put(st, t, ('in', obj))
                return [(st, en.fresh(st, fid, nid, 'ret'))]
            if base in ('top', 'back', 'front', 'operator[]', 'at') and m in (QUEUE, HIST):
                if base in ('operator[]', 'at'):
                    return None
                loc = ('F', obj, 'last')
                if loc not in st.store or st.store[loc] == ('gone',):
                    st.store[loc] = self.new(st, f, nid, n, 'kept', m)
                return [(st, ('addr', loc))]
            if base in ('pop', 'pop_back', 'clear', 'erase') and m in (QUEUE, HIST):
                loc = ('F', obj, 'last')
                v = st.store.get(loc)
                self.count('pops')
                if base in ('clear', 'erase') or v is None or is_tok(v) and self.how(st, v) == 'kept':
                    self.lost(st, None, f, nid, 'is removed from %s' % m)
                st.store.pop(loc, None)
                self.bump(st, 'pop', 1)
                return [(st, ZERO)]
        if UP in q and 'normal_iterator' in q and base == 'operator*' and self.range_param:
            t = self.new(st, f, nid, n, tag='elem')
            loc = ('T', fid, nid)
            st.write(loc, t)
            return [(st, ('addr', loc))]
        if q.startswith(UP) and base == 'operator=' and args:
            t = self.take(st, f, n['a'][0], args[0])
            old = st.read(obj)
            if is_tok(old) and self.how(st, old) == 'held':
                self.lost(st, old, f, nid, 'is overwritten')
            if t is not None and self.how(st, t) == 'kept':
                self.put(st, t, 'held')
            st.write(obj, t if t is not None else ZERO if args[0] == ZERO else en.fresh(st, fid, nid, 'up'))
            return [(st, to_addr(obj))]
        if q.startswith(UP) and base in ('reset', 'release'):
            old = st.read(obj)
            if is_tok(old) and self.how(st, old) == 'held':
                self.lost(st, old, f, nid, 'is released')
        return None

    def on_ctor(self, en, st, f, fid, nid, n, args):
        if n.get('f', '').startswith(UP):
            if not args:
                return [(st, ZERO)]
            an = f.nodes.get(n['a'][0], {})
            if args[0] == ZERO or 'nullptr' in an.get('t', ''):
                return [(st, ZERO)]
            t = self.take(st, f, n['a'][0], args[0])
            if t is not None:
                if self.how(st, t) == 'kept':
                    self.put(st, t, 'held')
                return [(st, t)]
        return None

    def on_node(self, en, st, f, fid, nid, n):
        if n['k'] == 'ret' and n.get('e') and len(st.stack) == 1:
            v = en.val(st, f, fid, n['e'])
            if is_tok(v):
                self.put(st, v, 'gone')
                st.store[('G', 'result')] = v
        # statistics of a block stored as failed
        if n['k'] == 'call' and n.get('o') and n.get('f', '').rsplit('::', 1)[-1] in PUT:
            o = f.nodes.get(n['o'], {})
            tail = 'TransferStats' in n.get('f', '')
            if tail and 'TransferStats' in str(n.get('f')) and n.get('a'):
                for s in f.subnodes(n['a'][-1]):
                    x = f.nodes[s]
                    if x['k'] == 'call' and x.get('f', '').endswith('::getTransferStats') and x.get('o'):
                        ov = en.val(st, f, fid, x['o'])
                        if is_tok(ov):
                            self.count('accounted')
                            self.put(st, ov, 'gone')
                            self.bump(st, 'acct', 1)

    def on_dtor(self, en, st, f, fid, nid, n, loc):
        v = st.read(loc)
        if is_tok(v) and self.how(st, v) == 'held':
            self.lost(st, v, f, nid, 'is destroyed')
        for a, b in st.rs:
            if b == ('in', loc):
                self.lost(st, a, f, nid, 'is destroyed with the list it is in')
        st.rs = frozenset((a, b) for a, b in st.rs if b != ('in', loc))
        return None

    def delta(self, st, q):
        loc = ('F', ('P', THIS), q)
        return st.read(loc), ('ini', loc)

    def on_exit(self, en, st, fn, ret):
        self.count('exits')
        for a, b in st.rs:
            if b == 'held':
                self.lost(st, a, fn, None, 'is forgotten when the function returns')
        for key, q, want in self.counters(st, ret):
            loc = ('F', ('P', THIS), q)
            now = st.read(loc)
            was = self.start(loc)
            d = ladd(now, was, -1) if TOP not in (now, was) else TOP
            ok = d != TOP and st.truth(cmp_('==', d, want)) is True
            self.count('counter_checks')
            if not ok:
                self.report('%s: %s' % (fn.qn, q), '%s does not change by the number of blocks that %s' % (q, key), st, fn.loc())

    def start(self, loc):
        s = State()
        return s.read(loc)

    def counters(self, st, ret):
        return ()


class Next(Own):
    def counters(self, st, ret):
        yield 'is handed to a thread', DEQ, ONE if ('G', 'result') in st.store else ZERO


class Ret(Own):
    range_param = True

    def counters(self, st, ret):
        yield 'come back', DEQ, ladd(ZERO, st.store.get(('G', 'put'), ZERO), -1)


class Fill(Own):
    def counters(self, st, ret):
        yield 'enter the queue', NB, st.store.get(('G', 'put'), ZERO)


class Refill(ForEach):
    """the queue is emptied only to be filled again from all known files"""
    over = ('DirectorySourceQueue::sharedFileData_',)
    zero = ('DirectorySourceQueue::totalFileSize_', 'DirectorySourceQueue::numEntries_', NB)
    lock_havoc = True
    K = 16

    def is_event(self, f, nid, n):
        return super().is_event(f, nid, n) or n.get('f') in ('DirectorySourceQueue::createIntoQueueInternal',
                                                             'DirectorySourceQueue::enqueueFilesToBeDeleted') or \
            n['k'] == 'call' and UP in n.get('f', '') and n.get('f', '').endswith(('::pop', '::clear', '::empty'))

    def other_call(self, en, st, f, fid, nid, n, obj, args):
        q = n.get('f', '')
        if UP in q and q.rsplit('::', 1)[-1] in ('pop', 'clear'):
            self.count('clears')
            if st.truth(cmp_('==', st.read(('F', ('P', THIS), DEQ)), ZERO)) is not True:
                self.report('cleared while in use', 'the queue is emptied although threads may hold blocks', st, f.loc(nid))
            if self.has(st, ('refilled',)):
                self.report('cleared late', 'the queue is emptied after it was filled again', st, f.loc(nid))
            self.add(st, ('cleared',))
            return [(st, ZERO)]
        if UP in q and q.endswith('::empty') and obj and obj[0] == 'F' and obj[2] == QUEUE:
            b = st.copy()
            self.add(st, ('empty',))
            return [(st, ONE), (b, ZERO)]
        if q == 'DirectorySourceQueue::createIntoQueueInternal':
            if not self.has(st, ('empty',)):
                self.report('not emptied', 'files are queued again while the queue may still hold their blocks', st, f.loc(nid))
            m = self.over[0]
            if self.is_elem(st, args[0], m):
                self.drop(st, lambda x: x[0] == 'todo')
            self.add(st, ('refilled',))
            for z in self.zero:
                if not self.has(st, ('once', z)) and st.truth(cmp_('==', st.read(('F', ('P', THIS), z)), ZERO)) is not True:
                    self.report('not reset ' + z, '%s keeps its old value although the queue is rebuilt' % z, st, f.loc(nid))
                self.add(st, ('once', z))
            return [(st, ZERO)]
        if q == 'DirectorySourceQueue::enqueueFilesToBeDeleted':
            self.add(st, ('extra', self.phase(st, self.over[0])))
            return [(st, ZERO)]
        return None

    def elem_start(self, en, st, f, nid, m):
        self.add(st, ('todo', m))

    def elem_end(self, en, st, f, nid, m):
        if self.has(st, ('todo', m)):
            self.report('file skipped', 'a discovered file is not queued again', st, f.loc(nid))

    def on_exit(self, en, st, fn, ret):
        self.count('exits')
        if self.phase(st, self.over[0]) != 'end':
            self.report('not refilled', 'the queue is emptied and not filled again from all discovered files', st, fn.loc())
        if not self.has(st, ('extra', 'end')):
            self.report('no extra', 'files to be deleted are not queued after the rebuild', st, fn.loc())


def by_ref(r, i):
    """the i-th parameter refers to a block the caller gives away"""
    def setup(st, f, fid):
        p = f.params[i]
        loc = ('P', st.store[('L', fid, p['d'])])
        t = ('sym', 'tok:param')
        st.assume(cmp_('>', t, ZERO))
        st.store[loc] = t
        r.put(st, t, 'held')
    return setup


def run(P, c):
    tot = {}

    def go(r, qn, sel=None, setup=None):
        fs = [f for f in P.fns(qn) if sel is None or sel(f)]
        c.need(len(fs) == 1, '%s not found' % qn)
        r.entry = qn
        def start(st, f, fid):
            st.store[('G', 'put')] = ZERO
            if setup:
                setup(st, f, fid)
        c.explore(r, fs[0].key, setup=start)
        c.need(r.stats.get('exits'), 'no exit of %s reached' % qn)
        c.oblige('%s loses no block' % qn, not r.viol)
        c.absorb(r)
        for k, v in r.stats.items():
            tot[k] = tot.get(k, 0) + v
        return r
    go(Next(P), 'DirectorySourceQueue::getNextSource')
    go(Ret(P), 'DirectorySourceQueue::returnToQueue', lambda f: 'vector' in f.params[0]['t'])
    r = Own(P)
    go(r, 'DirectorySourceQueue::returnToQueue', lambda f: 'vector' not in f.params[0]['t'], by_ref(r, 0))
    go(Fill(P), 'DirectorySourceQueue::createIntoQueueInternal')
    go(Fill(P), 'DirectorySourceQueue::enqueueFilesToBeDeleted')
    go(Own(P), 'DirectorySourceQueue::getFailedSourceStats')
    r = Own(P)
    go(r, 'ThreadTransferHistory::addSource', None, by_ref(r, 0))
    go(Own(P), 'ThreadTransferHistory::setCheckpointAndReturnToQueue')
    go(Own(P), 'ThreadTransferHistory::popAckedSourceStats')
    go(Own(P), 'SenderThread::sendBlocks')
    r = go(Refill(P), 'DirectorySourceQueue::setPreviouslyReceivedChunks')
    c.need(r.stats.get('loops') and r.stats.get('clears'), 'no rebuild of the queue found')
    for k, v in tot.items():
        c.counts[k] = v
    # nobody else touches blocks
    known = {'DirectorySourceQueue::getNextSource', 'DirectorySourceQueue::returnToQueue'}
    n = 0
    for f in P.F.values():
        for nid, x in f.nodes.items():
            if x['k'] == 'm' and x['f'] in (QUEUE, HIST):
                n += 1
                c.check(f.key in c.funcs or f.ctor or f.dtor or only_reads(f, nid),
                        '%s touches %s' % (f.qn, x['f']), '%s changes %s outside the analysed functions' % (f.qn, x['f']), f.loc(nid))
    c.floor('container_uses', n, 15)


def only_reads(f, nid):
    for x in f.nodes.values():
        if x['k'] == 'call' and x.get('o') == nid and x.get('f', '').rsplit('::', 1)[-1] in ('empty', 'size', 'operator[]', 'at', 'begin', 'end', 'cbegin', 'cend'):
            return True
        if x['k'] == 'call' and x.get('o') and f.nodes.get(x['o'], {}).get('k') == 'cast' and f.nodes[x['o']].get('e') == nid and x.get('cm'):
            return True
    return False

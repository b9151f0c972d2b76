"""C05: a received block counts only after it was written, synced, closed, verified."""
from wdtsa.engine import *
from wdtsa.codec import base
from wdtsa.iorule import IoRule

EXPLAIN = ('Every state function of the receiver thread is explored along all paths with each file-writer '
           'call forked into success and failure; at every point that counts a block (checkpoint, transfer '
           'log, list of blocks awaiting verification) the path must have established that the whole block '
           'was written, then synced and closed without error, and that its checksum or tag verified.')
RULE = ('typestate open->write*->sync->close per block with linear facts: at a counting point '
        'no pending failure, synced and closed after the last write, bytes written == block size, '
        'checksum equality known when a checksum footer is in use, no unverified tag')
ASSUME = ['FileWriter reports its failures (decided by C06)',
          'crc32c over equal bytes yields equal values']

TW = ('G', 'bytes written')
CRCV = ('G', 'crc value')
RECV = ('G', 'received checksum')
MARKS = {'Checkpoint::incrNumBlocks', 'TransferLogManager::addBlockWriteEntry',
         'TransferLogManager::addFileInvalidationEntry'}
WAITQ = 'ReceiverThread::blocksWaitingVerification_'
W = ('FileWriter::', 'Writer::')


class Block(Rule):
    flags = ('marked', 'drained')
    K = 8
    maxdepth = 8
    opaque = frozenset({'encryptionTypeToTagLen', 'Protocol::decodeHeader', 'Protocol::decodeFooter',
                        'Receiver::addTransferLogHeader'})

    def __init__(self, P):
        super().__init__(P)
        self.checksum = P.enum('WdtThread::FooterType')['CHECKSUM_FOOTER']
        self.nofooter = P.enum('WdtThread::FooterType')['NO_FOOTER']
        self.deleted = P.enum('FileAllocationStatus')['TO_BE_DELETED']
        self.marks = set()
        self.ends = 0
        self.next = P.enum('ReceiverState')['READ_NEXT_CMD']
        self.writes = set()
        ft = [x for x in P.record('WdtThread')['fields'] + P.record('ReceiverThread')['fields']
              if x['t'].endswith('FooterType')]
        if len(ft) != 1:
            raise Broken('footer type member not found')
        self.footer = ('F', ('P', THIS), ft[0]['q'])

    def init(self):
        # (failed calls, opened, synced, closed, verified stream)
        return ((), False, False, False, False, False, None)

    def is_event(self, fn, nid, n):
        q = n.get('f', '')
        if q.startswith(W) or q in MARKS or q in ('folly::crc32c', 'Checkpoint::setLastBlockDetails') \
                or q == 'Protocol::decodeFooter':
            return True
        if base(q) in ('emplace_back', 'push_back', 'clear') and n.get('o'):
            o = fn.nodes.get(n['o'], {})
            return o.get('f') == WAITQ
        return base(q) == 'expectEndOfStream'

    def should_inline(self, k):
        f = self.prog.F[k]
        if f.qn.startswith(W) or (f.cls or '').endswith('Socket') or f.cls == 'TransferStats' or f.qn in ('readAtLeast', 'readAtMost'):
            return False
        return super().should_inline(k)

    def upd(self, st, **kw):
        names = ('failed', 'opened', 'synced', 'closed', 'verified', 'wrote', 'run')
        d = dict(zip(names, st.rs))
        d.update(kw)
        st.rs = tuple(d[x] for x in names)

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        q = n.get('f', '')
        b = base(q)
        if q.startswith(W) and n['k'] == 'call':
            if b == 'getTotalWritten':
                if st.store[TW] == TOP:
                    st.store[TW] = en.fresh(st, fid, nid, 'tw')
                    st.assume(cmp_('>=', st.store[TW], ZERO))
                return [(st, st.store[TW])]
            if b in ('open', 'write', 'sync', 'close'):
                self.writes.add((f.key, nid))
                bad = st.copy()
                self.upd(bad, failed=tuple(sorted(set(bad.rs[0]) | {b})))
                bad.note('%s %s() fails' % (f.loc(nid), b))
                e = en.fresh(bad, fid, nid, 'err')
                bad.assume(cmp_('>', e, ZERO))
                if b == 'open':
                    self.upd(st, opened=True)
                    st.store[TW] = ZERO
                    bad.store[TW] = ZERO
                if b == 'write':
                    old = st.store[TW]
                    if len(args) == 2 and args[1] != TOP and old != TOP:
                        st.store[TW] = ladd(old, args[1])
                    else:
                        st.store[TW] = TOP
                    for s in (st, bad):
                        self.upd(s, synced=False, wrote=True)
                    self.pair(en, st, f, n, ('w', args[0], args[1]))
                if b == 'sync':
                    self.upd(st, synced=True)
                if b == 'close':
                    self.upd(st, closed=True)
                return [(st, ZERO), (bad, e)]
        if q == 'folly::crc32c':
            v = en.fresh(st, fid, nid, 'crc')
            prev = args[2] if len(args) > 2 else TOP
            have = st.store[CRCV]
            if TOP in (prev, have) or st.truth(cmp_('==', prev, have)) is not True:
                self.report('crc chain', 'the checksum is not continued from the bytes before', st, f.loc(nid))
            st.store[CRCV] = v
            self.pair(en, st, f, n, ('c', args[0], args[1]))
            return [(st, v)]
        if q == 'encryptionTypeToTagLen':
            v = en.rv(st, f, args[0], n['a'][0])
            if v == TOP:
                return None
            r = ('pure', 'taglen', v)
            st.assume(cmp_('>=', r, ZERO))
            self.taglen.add(r)
            return [(st, r)]
        if q == 'Protocol::decodeFooter':
            en.havoc_args(st, f, fid, nid, n, args)
            bad = st.copy()
            self.upd(bad, failed=tuple(sorted(set(bad.rs[0]) | {'decodeFooter'})))
            v = en.fresh(st, fid, nid, 'footer')
            if args[-1] != TOP:
                st.write(to_loc(args[-1]), v)
            st.store[RECV] = v
            return [(st, ONE), (bad, ZERO)]
        if b == 'expectEndOfStream':
            bad = st.copy()
            e = en.fresh(bad, fid, nid, 'err')
            bad.assume(cmp_('>', e, ZERO))
            self.upd(st, verified=True)
            self.ends += 1
            return [(st, ZERO), (bad, e)]
        if q in MARKS:
            self.mark(en, st, f, nid, n, q, args)
            return None
        if obj is not None and obj[0] == 'F' and obj[2] == WAITQ and b in ('emplace_back', 'push_back'):
            self.mark(en, st, f, nid, n, 'wait', args)
            return None
        if obj is not None and obj[0] == 'F' and obj[2] == WAITQ and b == 'clear':
            st.store[('G', 'drained')] = ONE
        if q == 'Checkpoint::setLastBlockDetails':
            self.partial(en, st, f, nid, n, args)
            return None
        return None

    def pair(self, en, st, f, n, ev):
        """each run of bytes written is checksummed, and the reverse"""
        ft = st.read(self.footer)
        if ft == TOP or st.truth(cmp_('==', ft, const(self.checksum))) is False:
            return
        kind, a, ln = ev
        run = st.rs[6]
        if run is not None and run[0] != kind:
            if run[1:] == (a, ln):
                self.upd(st, run=None)
                return
        if run is not None and not (run[0] == 'c' and run[2] != TOP and st.truth(cmp_('<=', run[2], ZERO)) is True):
            self.report('crc run', 'the bytes checksummed are not the bytes written', st, f.loc(n))
        self.upd(st, run=(kind, a, ln))

    def mark(self, en, st, f, nid, n, q, args):
        self.marks.add((f.key, nid, q))
        st.store[('G', 'marked')] = ONE
        failed, opened, synced, closed, verified, wrote, run = st.rs
        if verified and q != 'wait':
            return
        if not self.infile:
            self.report('%s in %s' % (q, self.entry), '%s counts blocks although nothing was verified' % self.entry, st, f.loc(nid))
            return
        what = {'wait': 'queued for verification'}.get(q, 'counted')

        def bad(k, msg):
            self.report(k + ':' + ('wait' if q == 'wait' else 'mark'), 'a block can be %s although %s' % (what, msg), st, f.loc(nid))
        if failed:
            bad('failed ' + failed[0], '%s() failed' % failed[0])
        bd = self.bd
        if not synced:
            bad('sync', 'it was not synced after the last write')
        if not closed:
            bad('close', 'its file was not closed')
        alloc = st.read(('F', bd, 'BlockDetails::allocationStatus'))
        size = st.read(('F', bd, 'BlockDetails::dataSize'))
        tw = st.store[TW]
        if not opened and (alloc == TOP or st.truth(cmp_('==', alloc, const(self.deleted))) is not True):
            bad('open', 'its file was never opened')
        if tw == TOP or size == TOP or st.truth(cmp_('==', tw, size)) is not True:
            bad('size', 'not every byte of it was written')
        ft = st.read(self.footer)
        chk = None if ft == TOP else st.truth(cmp_('==', ft, const(self.checksum)))
        if chk is not False:
            a, r = st.store[CRCV], st.store.get(RECV)
            if a is None or r is None or TOP in (a, r) or st.truth(cmp_('==', a, r)) is not True:
                bad('checksum', 'its checksum was not compared with the received one')
            if run is not None and (run[2] == TOP or st.truth(cmp_('<=', run[2], ZERO)) is not True):
                bad('crc run', 'the bytes checksummed are not the bytes written')
        elif q != 'wait':
            if not any(st.truth(cmp_('==', t, ZERO)) is True for t in self.taglen):
                bad('tag', 'its encryption tag is not verified yet')

    def on_exit(self, en, st, fn, ret):
        if ret == TOP:
            return
        if self.infile and st.truth(cmp_('==', ret, const(self.next))) is not False \
                and st.store.get(('G', 'marked')) != ONE:
            self.report('uncounted', 'the receiver can go on to the next command without counting the block', st, fn.loc())
        if st.rs[4] and not self.infile and st.store.get(('G', 'drained')) != ONE:
            self.report('undrained', 'the end of the stream is confirmed although blocks awaiting verification are not counted', st, fn.loc())

    def partial(self, en, st, f, nid, n, args):
        self.partials += 1
        bd = self.bd
        ft = st.read(self.footer)
        if ft == TOP or st.truth(cmp_('==', ft, const(self.nofooter))) is not True:
            self.report('partial footer', 'bytes of a partial block are kept although its checksum was never verified', st, f.loc(nid))
        if not any(st.truth(cmp_('==', t, ZERO)) is True for t in self.taglen):
            self.report('partial tag', 'bytes of a partial block are kept although its encryption tag was never verified', st, f.loc(nid))
        tw = st.store[TW]
        v = [en.rv(st, f, a, e) for a, e in zip(args, n['a'])]
        if tw == TOP or len(v) != 3 or v[2] != tw:
            self.report('partial size', 'a partial block is recorded with a size other than what was written', st, f.loc(nid))
        for i, fl in ((0, 'seqId'), (1, 'offset')):
            if v[i] != st.read(('F', bd, 'BlockDetails::' + fl)):
                self.report('partial ' + fl, 'a partial block is recorded with a wrong %s' % fl, st, f.loc(nid))

    def on_ctor(self, en, st, f, fid, nid, n, args):
        if n.get('f') == 'FileWriter::FileWriter' and len(args) >= 2 and args[1] != TOP:
            self.bd = to_loc(args[1])
        return None


class Pending(Rule):
    """the list of blocks awaiting verification never survives a new connection;
    counting from that list happens only after a verification that succeeded"""
    K = 6
    opaque = frozenset({'Receiver::startNewGlobalSession'})

    def init(self):
        return False                     # list known to be empty

    def is_event(self, fn, nid, n):
        if base(n.get('f', '')) == 'acceptNextConnection':
            return True
        return base(n.get('f', '')) in ('emplace_back', 'push_back', 'clear') and n.get('o') \
            and fn.nodes.get(n['o'], {}).get('f') == WAITQ

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        b = base(n.get('f', ''))
        if b == 'acceptNextConnection':
            self.count('accept')
            bad = st.copy()
            v = en.fresh(bad, fid, nid, 'err')
            bad.assume(cmp_('>', v, ZERO))
            if not st.rs:
                self.report('stale blocks', 'a connection can be accepted while blocks of an earlier one still '
                            'await verification', st, f.loc(nid))
            en.havoc_args(st, f, fid, nid, n, args)
            return [(st, ZERO), (bad, v)]
        if obj is not None and obj[0] == 'F' and obj[2] == WAITQ:
            if b == 'clear':
                st.rs = True
            elif b in ('emplace_back', 'push_back'):
                st.rs = False
        return None


class Callback(Rule):
    """the tag-verified callback is invoked only after the tag verified"""
    K = 8
    calls = 0

    def init(self):
        return False

    def is_event(self, fn, nid, n):
        b = base(n.get('f', ''))
        return b in ('verifyTag', 'decrypt', 'finish') and (n.get('rec') or n['f']).startswith('AESDecryptor') or \
            self.is_cb(fn, n)

    def is_cb(self, fn, n):
        if not n.get('f', '').startswith('std::function<') or not n['f'].endswith('operator()') or not n.get('o'):
            return False
        return fn.nodes.get(n['o'], {}).get('f') in self.cbs

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        b = base(n.get('f', ''))
        if self.is_cb(f, n):
            self.calls += 1
            if not st.rs:
                self.report('callback', 'blocks are confirmed although the encryption tag was not verified', st, f.loc(nid))
            return None
        if n.get('f', '').startswith('AESDecryptor::'):
            if b in ('verifyTag', 'finish'):
                bad = st.copy()
                bad.rs = False
                st.rs = True
                return [(st, ONE), (bad, ZERO)]
            if b == 'decrypt':
                en.havoc_args(st, f, fid, nid, n, args)
                st.rs = False
                return [(st, en.fresh(st, fid, nid, 'ok', 'bool'))]
        return None


class Write(IoRule):
    """FileWriter::write hands exactly buf[0, size) to the file, in order"""
    K = 8
    opaque = frozenset({'FileWriter::syncFileRange'})
    DONE = ('G', 'done')

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        if n.get('f') in ('write', 'pwrite') and not n.get('repo') and len(args) > 2:
            done = st.store[self.DONE]
            self.count('writes')
            if TOP in (done, args[1], args[2]) or ladd(args[1], done, -1) != self.buf:
                self.report('write position', 'bytes written do not start where the previous write stopped', st, f.loc(nid))
            elif st.truth(cmp_('<=', ladd(args[2], done), self.size)) is not True:
                self.report('write length', 'more bytes are written than the block holds', st, f.loc(nid))
            outs = super().on_call(en, st, f, fid, nid, n, obj, args)
            for s, v in outs:
                if v != const(-1):
                    s.store[self.DONE] = ladd(done, v) if done != TOP else TOP
            return outs
        return super().on_call(en, st, f, fid, nid, n, obj, args)

    def on_exit(self, en, st, fn, ret):
        if ret == TOP or st.truth(cmp_('==', ret, ZERO)) is False:
            return
        self.count('ok_exits')
        done = st.store[self.DONE]
        opt = [t for t, x in st.facts.items() if x[0] == x[1] == 1 and 'WdtOptions::skip_writes' in repr(t)]
        if not opt and (done == TOP or st.truth(cmp_('>=', done, self.size)) is not True):
            self.report('short write', 'FileWriter::write can return OK without writing every byte', st, fn.loc())
        tot = st.read(self.total)
        if tot == TOP or tot != ladd(('fld', ('cont', THIS), self.total[2]), self.size):
            self.report('total', 'the written-bytes counter is not advanced by the size written', st, fn.loc())


class Sync(IoRule):
    K = 8

    def on_exit(self, en, st, fn, ret):
        if ret == TOP or st.truth(cmp_('==', ret, ZERO)) is False:
            return
        self.count('ok_exits')
        if st.store.get(('G', 'fsynced')):
            return
        fd = st.read(self.fd)
        if st.truth(cmp_('<', fd, ZERO)) is True:
            return
        def off(name):
            return any(x[0] == x[1] == 0 and name in repr(t) for t, x in st.facts.items())
        if not off('WdtOptions::fsync') or not (off('WdtOptions::enable_download_resumption') or
                                                any(x[0] == x[1] == 1 and 'WdtOptions::resume_using_dir_tree' in repr(t)
                                                    for t, x in st.facts.items())):
            self.report('fsync', 'sync() can return OK without fsync although fsync or log based resumption is on', st, fn.loc())

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        r = super().on_call(en, st, f, fid, nid, n, obj, args)
        if n.get('f') in ('fsync', 'fdatasync') and r:
            r[0][0].store[('G', 'fsynced')] = ONE
        return r


class Open(IoRule):
    """writes of a block start at the block's offset in its file"""
    K = 8
    opaque = frozenset({'FileCreator::openForBlocks'})

    def is_event(self, fn, nid, n):
        return n.get('f') == 'FileCreator::openForBlocks' or super().is_event(fn, nid, n)

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        if n.get('f') == 'FileCreator::openForBlocks':
            bad = st.copy()
            st.store[('G', 'pos')] = ZERO
            v = en.fresh(st, fid, nid, 'fd')
            st.assume(cmp_('>=', v, ZERO))
            return [(st, v), (bad, const(-1))]
        r = super().on_call(en, st, f, fid, nid, n, obj, args)
        if n.get('f') in ('lseek', 'lseek64') and r:
            r[0][0].store[('G', 'pos')] = args[1] if args[2] == ZERO else TOP
        return r

    def on_exit(self, en, st, fn, ret):
        if ret == TOP or st.truth(cmp_('==', ret, ZERO)) is False:
            return
        self.count('ok_exits')
        pos = st.store.get(('G', 'pos'))
        if pos is None:
            return
        off = st.read(('F', ('P', st.read(('F', ('P', THIS), 'FileWriter::blockDetails_'))), 'BlockDetails::offset'))
        if pos == TOP or (pos != off and not (pos == ZERO and st.truth(cmp_('<=', off, ZERO)) is True)):
            self.report('seek', 'open() can return OK without the file positioned at the block offset', st, fn.loc())


def writer(P, c):
    f = P.fn('FileWriter::write')
    r = Write(P)
    tot = [x['q'] for x in P.record('FileWriter')['fields'] if x['q'].endswith('::totalWritten_')]
    c.need(len(tot) == 1 and len(f.params) == 2, 'FileWriter::write layout changed')
    r.total = ('F', ('P', THIS), tot[0])
    r.buf = ('sym', 'buf')
    r.size = ('sym', 'size')

    def setup(st, fn, fid):
        st.store[r.DONE] = ZERO
        st.store[('L', fid, fn.params[0]['d'])] = r.buf
        st.store[('L', fid, fn.params[1]['d'])] = r.size
        st.assume(cmp_('>=', r.size, ZERO))
    c.explore(r, f.key, setup=setup)
    c.need(r.stats.get('ok_exits') and r.stats.get('writes'), 'FileWriter::write not understood')
    c.oblige('FileWriter::write writes buf[0,size) in order or fails', not r.viol)
    c.absorb(r, 'FileWriter::write ')
    r = Sync(P)
    fd = [x['q'] for x in P.record('FileWriter')['fields'] if x['q'].endswith('::fd_')]
    c.need(len(fd) == 1, 'FileWriter fd member not found')
    r.fd = ('F', ('P', THIS), fd[0])
    c.explore(r, P.fn('FileWriter::sync').key)
    c.need(r.stats.get('ok_exits'), 'FileWriter::sync not understood')
    c.oblige('FileWriter::sync fsyncs when configured', not r.viol)
    c.absorb(r, 'FileWriter::sync ')
    r = Open(P)
    c.explore(r, P.fn('FileWriter::open').key)
    c.need(r.stats.get('ok_exits'), 'FileWriter::open not understood')
    c.oblige('FileWriter::open positions the file at the block', not r.viol)
    c.absorb(r, 'FileWriter::open ')


def setup(st, f, fid):
    st.store[TW] = ZERO
    st.store[CRCV] = ZERO


def run(P, c):
    states = [f for f in P.F.values() if f.cls == 'ReceiverThread' and f.ret.replace('facebook::wdt::', '') == 'ReceiverState' and not f.params]
    c.need(len(states) >= 12, 'receiver state functions not found')
    total = set()
    for f in sorted(states, key=lambda x: x.qn):
        r = Block(P)
        if not any(k == f.key for k in r.relevant()):
            continue
        r.entry = f.qn
        r.taglen = set()
        r.partials = 0
        r.bd = None
        r.infile = f.qn == 'ReceiverThread::processFileCmd'
        c.explore(r, f.key, setup=setup)
        total |= r.marks
        if r.ends and not r.marks:
            r.report('unmarked', '%s confirms the end of the stream without counting the verified blocks' % f.qn, None, f.loc())
        c.oblige('%s counts only complete, verified blocks' % f.qn, not r.viol)
        c.absorb(r, f.qn + ' ')
        if r.infile:
            c.need(r.partials, 'partial-block bookkeeping not found')
            c.need(r.marks, 'block counting not found in processFileCmd')
            c.floor('writer_calls', len(r.writes), 4)
            c.need(r.bd is not None, 'FileWriter of processFileCmd not found')
    c.floor('counting_points', len(total), 2)
    # the list of unverified blocks
    acc = 0
    for f in sorted(states, key=lambda x: x.qn):
        r = Pending(P)
        if f.key not in r.relevant():
            continue
        c.explore(r, f.key)
        acc += r.stats.get('accept', 0)
        c.oblige('%s accepts connections only with no unverified block left' % f.qn, not r.viol)
        c.absorb(r, f.qn + ' ')
    c.floor('accept_points', acc, 2)
    # who may confirm that list
    cbs = {x['q'] for rec in P.records.values() for x in rec['fields'] if (x['q'].split('::')[0].endswith('Socket')) and ('function<' in x['t'] or x['t'].endswith('Func'))}
    c.need(cbs, 'tag verification callback not found')
    n = 0
    for f in [f for f in P.F.values() if (f.cls or '').endswith('Socket')]:
        r = Callback(P)
        r.cbs = cbs
        if not any(r.is_cb(f, n) for _, n in f.calls()):
            continue
        entry = top_of(P, f, r)
        for e in entry:
            c.explore(r, e)
        n += r.calls
        c.oblige('%s reports a verified tag only after verifying it' % f.qn, not r.viol)
        c.absorb(r, f.qn + ' ')
    c.check(n >= 1, 'callback missing', 'verified tags are never reported to the receiver', 'util/WdtSocket.cpp')
    writer(P, c)
    marked_fields(P, c)


def top_of(P, f, r):
    """outermost methods of the class that reach f"""
    rel = {f.key}
    todo = [f.key]
    callers = P.callers()
    while todo:
        k = todo.pop()
        for g in callers.get(k, ()):
            if g not in rel and P.F[g].cls == f.cls:
                rel.add(g)
                todo.append(g)
    return sorted(k for k in rel if not any(g in rel and g != k for g in callers.get(k, ()))) or [f.key]


class Fields(Rule):
    """what is counted is the block that was verified"""
    K = 6

    def is_event(self, fn, nid, n):
        return n.get('f') in MARKS

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        want = {'TransferLogManager::addBlockWriteEntry': ('seqId', 'offset', 'dataSize'),
                'TransferLogManager::addFileInvalidationEntry': ('seqId',)}.get(n.get('f'))
        if want:
            self.count('calls')
            v = [en.rv(st, f, a, e) for a, e in zip(args, n['a'])]
            for a, w in zip(v, want):
                if a == TOP or a[0] != 'fld' or a[2] != 'BlockDetails::' + w:
                    self.report('%s %s' % (base(n['f']), w), 'the log entry is not given the %s of the block' % w, st, f.loc(nid))
        return None


def marked_fields(P, c):
    r = Fields(P)
    n = 0
    for f in [f for f in P.F.values() if f.cls == 'ReceiverThread' and any(x.get('f') in MARKS - {'Checkpoint::incrNumBlocks'} for _, x in f.calls())]:
        c.explore(r, f.key)
    n = r.stats.get('calls', 0)
    c.need(n >= 2, 'log entries of received blocks not found')
    c.oblige('log entries describe the verified block', not r.viol)
    c.absorb(r)

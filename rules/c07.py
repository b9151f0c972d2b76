"""C07: a failed, short or undecodable socket exchange never continues as if it had worked."""
from wdtsa.sock import *

EXPLAIN = ('Every state function of the sender and receiver threads is explored with each socket read, write, accept, connect, '
           'end-of-stream check and message decode forked into complete, short and failed. A failure must show in what the '
           'function hands to the state machine: an error recorded in the thread statistics and a state that reconnects, '
           'aborts or ends. A block counts as sent only if every byte of header, data and footer was written.')
RULE = 'fault-forking typestate over every thread state function'
ASSUME = ['sockets report the number of bytes they transferred (C16)']

SENDER_OK = ('CONNECT', 'CHECK_FOR_ABORT', 'END', 'PROCESS_VERSION_MISMATCH')
RECEIVER_OK = ('ACCEPT_WITH_TIMEOUT', 'FINISH_WITH_ERROR', 'SEND_ABORT_CMD', 'END')
STATS = 'WdtThread::threadStats_'
HEART = ('SenderThread::readHeartBeats', 'ReceiverThread::sendHeartBeat')
# (function, kind): the outcome is deliberately not looked at
IGNORED = {
    ('SenderThread::processDoneCmd', 'write'): 'acknowledges DONE; the end-of-stream check that follows decides',
    ('ReceiverThread::sendAbortCmd', 'write'): 'the connection is dropped next in any case',
    ('SenderThread::readFileChunks', 'decodeChunksCmd'): 'two fixed-size fields at the start of the thread buffer, always in bounds',
}
# the caller has recorded the error already
NOERR = ('SenderThread::checkForAbort',)


class Net(SockRule):
    states = ()
    enum = {}
    opaque = frozenset(HEART + ('SenderThread::sendOneByteSource',))
    follow = frozenset({'SenderThread::readNextReceiverCmd', 'SenderThread::readAndVerifySpuriousCheckpoint',
                        'SenderThread::connectToReceiver'})

    def is_event(self, f, nid, n):
        return super().is_event(f, nid, n) or n.get('f', '') in ('Funnel::getStatus', 'SenderThread::sendOneByteSource')

    def should_inline(self, k):
        f = self.prog.F[k]
        if f.cls in ('ThreadTransferHistory', 'TransferHistoryController', 'DirectorySourceQueue', 'TransferLogManager',
                     'FileCreator', 'TransferStats', 'WdtBase', 'Receiver', 'Sender', 'Throttler') or \
                f.cls == 'FileWriter' and len(f.reachable()) > 4:
            return False
        return super().should_inline(k)

    def fail(self, st, f, n, kind):
        if (f.qn, kind) in IGNORED:
            self.count('ignored')
            return
        super().fail(st, f, n, kind)

    def other_call(self, en, st, f, fid, nid, n, obj, args):
        q = n.get('f', '')
        if q == 'Funnel::getStatus':
            self.count('funnels')
            outs = []
            for i in range(3):
                s = st if i == 2 else st.copy()
                if i == 0:
                    self.add(s, 'claimed')
                outs.append((s, const(i)))
            return outs
        if q in ('Funnel::notifySuccess', 'Funnel::notifyFail'):
            if not self.has(st, 'claimed'):
                self.report('%s: funnel' % f.qn, 'a funnel is answered without having been claimed', st, f.loc(nid))
            if q.endswith('Success') and self.bads(st):
                self.report('%s: funnel success' % f.qn, 'the file chunk exchange is reported as done although it failed', st, f.loc(nid))
            self.drop(st, lambda x: x == ('claimed',))
            return [(st, ZERO)]
        if q == 'SenderThread::sendOneByteSource':
            bad = st.copy()
            self.fail(bad, f, n, 'block')
            self.set_err(st, 'last', ZERO)
            self.set_err(bad, 'last', ONE)
            return [(st, TOP), (bad, TOP)]
        if q == 'TransferStats::operator+=':
            if self.who(obj) == STATS:
                e = self.err(st, 'last')
                if e == ONE:
                    self.set_err(st, STATS, ONE)
                self.add(st, 'merged')
            return [(st, to_addr(obj))]
        return None

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        q = n.get('f', '')
        if q == 'TransferStats::getLocalErrorCode' and self.who(obj) == 'local' and self.err(st, 'last') is not None:
            return [(st, self.err(st, 'last'))]
        return super().on_call(en, st, f, fid, nid, n, obj, args)

    def on_exit(self, en, st, fn, ret):
        self.count('exits')
        if self.has(st, 'claimed'):
            self.report('%s: funnel left' % fn.qn, 'the file chunk exchange was claimed and left without an answer', st, fn.loc())
        b = self.bads(st)
        if not b:
            return
        self.count('failure_exits')
        what = ', '.join(sorted({x[1] for x in b}))
        names = [k for k in self.states if st.truth(cmp_('==', ret, const(self.enum[k]))) is True] if ret != TOP else []
        if not names:
            self.report('%s: continues' % fn.qn, 'goes on to a regular state after a failed %s' % what, st, fn.loc())
        e = self.err(st)
        if all(x[1] == 'acceptNextConnection' for x in b) and names == ['ACCEPT_WITH_TIMEOUT']:
            return                                          # accepts again
        if fn.qn not in NOERR and (e is None or st.truth(cmp_('!=', e, ZERO)) is not True):
            self.report('%s: error not recorded' % fn.qn, 'no error is recorded after a failed %s' % what, st, fn.loc())


class Block(SockRule):
    """one block on the wire"""
    K = 24
    opaque = frozenset(HEART)

    def other_call(self, en, st, f, fid, nid, n, obj, args):
        q = n.get('f', '')
        if q == 'ByteSource::read':
            en.havoc_args(st, f, fid, nid, n, args)
            self.count('source_reads')
            bad = st.copy()
            self.fail(bad, f, n, 'source')
            v = en.fresh(st, fid, nid, 'buf')
            st.assume(cmp_('>', v, ZERO))
            st.store[('G', 'buf')] = v
            return [(st, v), (bad, ZERO)]
        if q == 'ByteSource::hasError':
            return [(st, const(any(x[1] == 'source' for x in self.bads(st))))]
        if q == 'ByteSource::finished':
            more = st.copy()
            self.count('source_loop')
            out = [(st, ONE)]
            if more.assume(cmp_('<', more.store.get(('G', 'sent'), ZERO), ('sym', 'size'))):
                out.append((more, ZERO))
            return out
        if q == 'ByteSource::getSize':
            return [(st, ('sym', 'size'))]
        if q == 'WdtBase::getCurAbortCode' or q == 'SenderThread::getThreadAbortCode':
            bad = st.copy()
            self.fail(bad, f, n, 'abort')
            return [(st, ZERO), (bad, const(7))]
        if q == 'TransferStats::incrNumBlocks':
            self.count('success')
            if self.bads(st):
                self.report('block counted', 'a block is counted as sent after a failed %s' % self.bads(st)[0][1], st, f.loc(nid))
            sent = st.store.get(('G', 'sent'), ZERO)
            if sent == TOP or st.truth(cmp_('==', sent, ('sym', 'size'))) is not True:
                self.report('block incomplete', 'a block is counted as sent although not all of its bytes were written', st, f.loc(nid))
            self.add(st, 'counted')
            return [(st, ZERO)]
        if q.startswith(('TransferStats::add', 'TransferStats::incr')):
            return [(st, ZERO)]
        return None

    def is_event(self, f, nid, n):
        return super().is_event(f, nid, n) or n.get('f', '').startswith(('ByteSource::', 'TransferStats::incrNumBlocks')) or \
            n.get('f') in ('SenderThread::getThreadAbortCode',)

    def moved(self, en, st, f, nid, n, base, args, v):
        if base == 'write' and args[0] != TOP and args[0] == st.store.get(('G', 'buf')):
            st.store[('G', 'sent')] = ladd(st.store.get(('G', 'sent'), ZERO), v)
            st.store.pop(('G', 'buf'))
            self.count('data_writes')

    def on_exit(self, en, st, fn, ret):
        self.count('exits')
        e = self.err(st, 'local')
        b = self.bads(st)
        if b:
            if e is None or st.truth(cmp_('!=', e, ZERO)) is not True:
                self.report('failed block looks sent', 'the block has no error after a failed %s' % b[0][1], st, fn.loc())
        elif not self.has(st, 'counted') and (e is None or st.truth(cmp_('!=', e, ZERO)) is not True):
            self.report('uncounted', 'a block ends without an error and without being counted', st, fn.loc())


def run(P, c):
    tot = {}

    def take(r):
        for k, v in r.stats.items():
            tot[k] = tot.get(k, 0) + v
    sites = set()
    n = 0
    for cls, en_, okst in (('SenderThread', 'SenderState', SENDER_OK), ('ReceiverThread', 'ReceiverState', RECEIVER_OK)):
        fs = sorted({f.key: f for f in P.F.values() if f.cls == cls and f.ret.rsplit('::', 1)[-1] == en_ and not f.params}.values(),
                    key=lambda f: f.qn)
        c.need(len(fs) >= 13, 'only %d state functions of %s found' % (len(fs), cls))
        for f in fs:
            r = Net(P)
            r.states = okst
            r.enum = P.enum(en_)
            c.explore(r, f.key)
            sites |= r.sites
            c.need(r.stats.get('exits') or r.viol, 'no exit of %s reached' % f.qn)
            c.oblige('%s answers every failure' % f.qn, not r.viol)
            c.absorb(r)
            take(r)
            n += 1
    r = Block(P)
    fs = P.fns('SenderThread::sendOneByteSource')
    c.need(len(fs) == 1, 'sendOneByteSource not found')
    def setup(st, f, fid):
        st.store[('G', 'sent')] = ZERO
        st.store[('G', 'size')] = ('sym', 'size')
    c.explore(r, fs[0].key, setup=setup)
    c.need(r.stats.get('success') and r.stats.get('data_writes') or r.viol, 'no complete block found')
    c.absorb(r)
    c.oblige('a block counts as sent only when written completely', not r.viol)
    sites |= r.sites
    take(r)
    # every socket transfer in the threads was looked at
    m = 0
    for f in P.F.values():
        if f.cls not in ('SenderThread', 'ReceiverThread') and f.qn not in ('readAtLeast', 'readAtMost', '::readAtLeast', '::readAtMost'):
            continue
        for nid, x in f.calls():
            q = x.get('f', '')
            if q.split('::')[0] in SOCK and q.rsplit('::', 1)[-1] in ('read', 'write', 'readWithTimeout'):
                m += 1
                c.check((f.qn, nid) in sites or f.qn in HEART, '%s: unseen transfer' % f.qn, 'a socket transfer in %s is outside every analysed exchange' % f.qn, f.loc(nid))
    c.floor('socket_transfers', m, 20)
    for k, v in tot.items():
        c.counts[k] = v
    c.floor('state_functions', n, 26)

"""C08: both state machines take only their documented transitions, for the documented reasons."""
from wdtsa.sock import *
from rules.c01 import gval

EXPLAIN = ('The entries of both state tables are explored with socket operations, decodes, queue and history answers, funnels and '
           'the error a thread arrives with forked. Every state a function can hand to the state machine is compared with the '
           'transition table of the protocol, and with the reason that table gives for it: the command byte received, the error the '
           'thread arrived with, what the settings said, whether blocks are left, whether other threads still run. Every '
           'transition of the table must exist. The loops that run the tables are explored for polling, order and completeness.')
RULE = 'path-sensitive transition relation of each state function, compared both ways with a guarded transition table'
ASSUME = ['that a failed socket operation leads to an error state is decided by C07']
LIMITS = ['that a run of the state machine ends (liveness) is not decided']

STATS = 'WdtThread::threadStats_'
E0 = ('sym', 'e0')
PEND0, IDX0 = ('sym', 'pend0'), ('sym', 'idx0')
CMD = ('G', 'cmd')
SFC = ('G', 'sfc')
NUMB = ('G', 'numblocks')
REMOTE = ('G', 'remote')
NEG = ('G', 'neg')
LAST = 'last'


def me(q):
    return ('F', ('P', THIS), q)


def yes(st, v):
    """True / False / None for a condition value"""
    if v is None or v == TOP:
        return None
    for x in (v, ('bool', v)):
        t = st.truth(cmp_('!=', x, ZERO))
        if t is not None:
            return t
    return st.truth(v) if v[0] not in ('c', 'sym', 'fld') else None


# state -> {next state: reasons, all of which must hold}
SENDER = {
    'CONNECT': {'SEND_SETTINGS': 'first reset', 'READ_LOCAL_CHECKPOINT': 'again reset', 'END': 'err', 'PROCESS_VERSION_MISMATCH': 'mismatch'},
    'READ_LOCAL_CHECKPOINT': {'CONNECT': 'err', 'END': 'err', 'READ_RECEIVER_CMD': 'donefailed', 'SEND_SETTINGS': 'checkpoint'},
    'SEND_SETTINGS': {'SEND_BLOCKS': 'nochunks', 'READ_FILE_CHUNKS': 'chunks', 'CONNECT': 'err'},
    'SEND_BLOCKS': {'SEND_BLOCKS': 'kept sent', 'SEND_SIZE_CMD': 'unsized discovered', 'SEND_DONE_CMD': 'drained sized', 'END': 'refused err',
                    'CHECK_FOR_ABORT': 'kept notsent'},
    'SEND_DONE_CMD': {'READ_RECEIVER_CMD': '', 'CHECK_FOR_ABORT': 'err'},
    'SEND_SIZE_CMD': {'SEND_BLOCKS': 'size', 'CHECK_FOR_ABORT': 'err'},
    'CHECK_FOR_ABORT': {'CONNECT': 'noabort', 'PROCESS_ABORT_CMD': 'ABORT_CMD'},
    'READ_FILE_CHUNKS': {'READ_FILE_CHUNKS': 'WAIT_CMD|LOCAL_CHECKPOINT_CMD', 'SEND_BLOCKS': 'ACK_CMD|CHUNKS_CMD', 'PROCESS_ABORT_CMD': 'ABORT_CMD',
                         'CHECK_FOR_ABORT': 'err', 'END': 'err', 'CONNECT': 'err'},
    'READ_RECEIVER_CMD': {'PROCESS_ERR_CMD': 'ERR_CMD', 'PROCESS_WAIT_CMD': 'WAIT_CMD', 'PROCESS_DONE_CMD': 'DONE_CMD',
                          'PROCESS_ABORT_CMD': 'ABORT_CMD', 'READ_RECEIVER_CMD': 'LOCAL_CHECKPOINT_CMD|HEART_BEAT_CMD', 'CONNECT': 'err', 'END': 'err'},
    'PROCESS_DONE_CMD': {'END': 'acked', 'CONNECT': 'err'},
    'PROCESS_WAIT_CMD': {'READ_RECEIVER_CMD': ''},
    'PROCESS_ERR_CMD': {'SEND_BLOCKS': 'acked', 'CONNECT': 'err', 'END': 'err'},
    'PROCESS_ABORT_CMD': {'END': '', 'PROCESS_VERSION_MISMATCH': 'remotemismatch version'},
    'PROCESS_VERSION_MISMATCH': {'CONNECT': 'negotiated adopted', 'END': ''},
}
RECEIVER = {
    'LISTEN': {'ACCEPT_FIRST_CONNECTION': '', 'FINISH_WITH_ERROR': 'err'},
    'ACCEPT_FIRST_CONNECTION': {'ACCEPT_WITH_TIMEOUT': 'started', 'FINISH_WITH_ERROR': 'err', 'READ_NEXT_CMD': 'accepted session'},
    'ACCEPT_WITH_TIMEOUT': {'READ_NEXT_CMD': 'accepted first noerr', 'SEND_LOCAL_CHECKPOINT': 'accepted again noerr', 'FINISH_WITH_ERROR': 'err',
                            'END': 'err'},
    'SEND_LOCAL_CHECKPOINT': {'READ_NEXT_CMD': '', 'ACCEPT_WITH_TIMEOUT': 'err'},
    'READ_NEXT_CMD': {'PROCESS_FILE_CMD': 'FILE_CMD', 'PROCESS_DONE_CMD': 'DONE_CMD', 'PROCESS_SETTINGS_CMD': 'SETTINGS_CMD',
                      'PROCESS_SIZE_CMD': 'SIZE_CMD', 'ACCEPT_WITH_TIMEOUT': 'err', 'FINISH_WITH_ERROR': 'err'},
    'PROCESS_FILE_CMD': {'READ_NEXT_CMD': '', 'FINISH_WITH_ERROR': 'err', 'ACCEPT_WITH_TIMEOUT': 'err', 'SEND_ABORT_CMD': 'err'},
    'PROCESS_SETTINGS_CMD': {'READ_NEXT_CMD': 'nochunks', 'SEND_FILE_CHUNKS': 'chunks', 'FINISH_WITH_ERROR': 'err', 'SEND_ABORT_CMD': 'err'},
    'PROCESS_DONE_CMD': {'WAIT_FOR_FINISH_OR_NEW_CHECKPOINT': 'applied', 'FINISH_WITH_ERROR': 'err'},
    'PROCESS_SIZE_CMD': {'READ_NEXT_CMD': '', 'FINISH_WITH_ERROR': 'err'},
    'SEND_FILE_CHUNKS': {'READ_NEXT_CMD': '', 'ACCEPT_WITH_TIMEOUT': 'err'},
    'SEND_GLOBAL_CHECKPOINTS': {'READ_NEXT_CMD': 'pending', 'ACCEPT_WITH_TIMEOUT': 'err'},
    'SEND_DONE_CMD': {'END': 'eos', 'ACCEPT_WITH_TIMEOUT': 'err'},
    'SEND_ABORT_CMD': {'FINISH_WITH_ERROR': 'notmismatch0', 'ACCEPT_WITH_TIMEOUT': 'mismatch0'},
    'WAIT_FOR_FINISH_OR_NEW_CHECKPOINT': {'SEND_DONE_CMD': 'finished', 'SEND_GLOBAL_CHECKPOINTS': 'running new', 'ACCEPT_WITH_TIMEOUT': 'running err'},
    'FINISH_WITH_ERROR': {'END': 'checkpointed finished'},
}


class Step(SockRule):
    K = 16
    maxdepth = 8
    opaque = frozenset({'SenderThread::readHeartBeats', 'ReceiverThread::sendHeartBeat', 'SenderThread::sendOneByteSource',
                        'ReceiverThread::markBlockVerified', 'ReceiverThread::markReceivedBlocksVerified', 'ReceiverThread::checkAndFinishBlock'})
    follow = frozenset({'SenderThread::readNextReceiverCmd', 'SenderThread::readAndVerifySpuriousCheckpoint', 'SenderThread::connectToReceiver'})
    mark_fns = ('ThreadsController::markState', 'ThreadsController::hasThreads', 'ThreadsController::executeAtStart',
                'ConditionGuard::acquire', 'ConditionGuardImpl::wait', 'ConditionGuardImpl::notifyOne', 'ConditionGuardImpl::notifyAll',
                'Receiver::getNewCheckpoints', 'WdtBase::addCheckpoint', 'Receiver::addCheckpoint', 'Funnel::getStatus',
                'DirectorySourceQueue::getNextSource', 'ThreadTransferHistory::addSource', 'readAtLeast',
                'SenderThread::reset', 'ThreadTransferHistory::markAllAcknowledged', 'ThreadTransferHistory::setLocalCheckpoint',
                'SenderThread::getThreadAbortCode', 'DirectorySourceQueue::fileDiscoveryFinished', 'SenderThread::sendOneByteSource',
                'Receiver::hasNewTransferStarted', 'Protocol::encodeSettings', 'SenderThread::setFooterType',
                'TransferHistoryController::handleVersionMismatch', 'Sender::setProtoNegotiationStatus', 'Sender::getNegotiationStatus',
                'Sender::clearAbort', 'WdtBase::clearAbort')

    def is_event(self, f, nid, n):
        return super().is_event(f, nid, n) or n['k'] == 'call' and (n.get('f', '') in self.mark_fns or self.footer(n))

    def should_inline(self, k):
        f = self.prog.F[k]
        if f.cls not in ('SenderThread', 'ReceiverThread') or f.name in ('getThreadAbortCode', 'reset', 'setFooterType') or self.footer_fn(k):
            return False
        return super().should_inline(k)

    def footer_fn(self, k):
        f = self.prog.F.get(k)
        return bool(f) and f.cls in ('SenderThread', 'WdtThread') and len(f.reachable()) < 12 and \
            any(x.endswith('::footerType_') for x in self.prog.direct_mods(f))

    def footer(self, n):
        return any(self.footer_fn(t) for t in self.prog.targets(n)) if n.get('repo') else False

    def part(self, st):
        return super().part(st) + (st.truth(cmp_('==', E0, ZERO)), st.truth(cmp_('==', E0, const(self.V_MISMATCH))),
                                   st.store.get(CMD) is None, self.cmds(st), yes(st, st.store.get(SFC)),
                                   yes(st, st.read(me('SenderThread::totalSizeSent_'))),
                                   self.is_(st, NUMB, -1), self.is_(st, REMOTE, self.V_MISMATCH), self.is_(st, NEG, self.V_RESOLVED))

    def is_(self, st, g, k):
        v = st.store.get(g)
        return None if v is None or v == TOP else st.truth(cmp_('==', v, const(k)))

    def cmds(self, st):
        v = st.store.get(CMD)
        if v is None or v == TOP:
            return None
        return tuple(k for k, x in self.magic.items() if st.truth(cmp_('==', v, const(x))) is True)

    def moved(self, en, st, f, nid, n, base, args, v):
        if base != 'write' and args[1] == ONE and args[0] != TOP and CMD not in st.store:
            st.store[CMD] = st.read(('X', to_loc(args[0]), ZERO))
        if base == 'read' and st.store.get(CMD) is None:
            pass

    def on_read(self, en, st, f, nid, n, loc):
        if loc[0] == 'F' and loc[2] == 'Checkpoint::numBlocks' and f.cls == 'SenderThread':
            v = st.read(loc)
            if v == TOP:
                v = ('sym', 'numblocks')
                st.write(loc, v)
            st.store[NUMB] = v
        # the first byte looked at after the buffer was filled
        if self.has(st, 'filled') and loc[0] == 'X' and CMD not in st.store:
            v = st.read(loc)
            if v == TOP:
                v = ('sym', 'cmdbyte')
                st.write(loc, v)
            st.store[CMD] = v

    def fork(self, st, *outs):
        """outs: (value, tags, dropped)"""
        res = []
        for i, (v, tags, dropped) in enumerate(outs):
            s = st if i == len(outs) - 1 else st.copy()
            self.drop(s, lambda x: x[0] in dropped)
            for t in tags:
                self.add(s, t)
            if v is not None and v != TOP and v[0] != 'c':
                s.assume(cmp_('!=', v, ZERO))
            res.append((s, v))
        return res

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        q = n.get('f', '')
        if q == 'TransferStats::getLocalErrorCode' and self.who(obj) == 'local' and self.err(st, LAST) is not None:
            return [(st, self.err(st, LAST))]
        if q == 'Protocol::decodeAbort' or q == 'Protocol::decodeSettings' or q == 'Protocol::decodeCheckpoints':
            r = super().on_call(en, st, f, fid, nid, n, obj, args)
            for s, v in r:
                if q.endswith('Abort') and len(args) > 4 and args[4] != TOP:
                    x = en.fresh(s, fid, nid, 'remote')
                    s.write(to_loc(args[4]), x)
                    s.store[REMOTE] = x
                if q.endswith('Settings') and args[-1] != TOP:
                    loc = ('F', to_loc(args[-1]), 'Settings::sendFileChunks')
                    x = en.fresh(s, fid, nid, 'sfc')
                    s.write(loc, x)
                    s.store[SFC] = x
            return r
        r = super().on_call(en, st, f, fid, nid, n, obj, args)
        if q.endswith('::acceptNextConnection') and r:
            self.add(r[0][0], 'accepted')
        if q.endswith('::expectEndOfStream') and r:
            self.add(r[0][0], 'eos')
        return r

    def on_write(self, en, st, f, nid, n, loc, v):
        if loc == me('WdtThread::threadProtocolVersion_'):
            self.drop(st, lambda x: x == ('footer',))
            self.add(st, 'adopted')
        if loc[0] == 'F' and loc[2].endswith('::footerType_'):
            self.add(st, 'footer')
        if loc == me('SenderThread::negotiatedProtocol_'):
            self.add(st, 'version')

    def on_dtor(self, en, st, f, fid, nid, n, loc):
        if n.get('rec') == 'ConditionGuardImpl':
            self.drop(st, lambda x: x[0] in ('held', 'idle', 'nonew'))
        return None

    def other_call(self, en, st, f, fid, nid, n, obj, args):
        q = n.get('f', '')
        base = q.rsplit('::', 1)[-1]
        if q == 'readAtLeast' or q == 'readAtMost':
            bad = st.copy()
            self.fail(bad, f, n, 'read')
            self.add(st, 'filled')
            en.havoc_args(st, f, fid, nid, n, args)
            v, w = en.fresh(st, fid, nid, 'n'), en.fresh(bad, fid, nid, 'bad')
            st.assume(cmp_('>=', v, args[3]))
            bad.assume(cmp_('<', w, args[3]))
            st.store.pop(CMD, None)
            return [(st, v), (bad, w)]
        if q == 'ThreadsController::markState':
            v = args[1]
            self.drop(st, lambda x: x[0] == 'mark')
            if v != TOP and v[0] == 'c':
                self.add(st, 'mark', v[1])
                if v[1] == self.status['FINISHED'] and not self.has(st, 'held'):
                    self.report('%s: finished' % f.qn, 'a thread is marked finished without the lock the others check under', st, f.loc(nid))
                if v[1] == self.status['FINISHED'] and self.entry == 'WAIT_FOR_FINISH_OR_NEW_CHECKPOINT' and \
                        not (self.has(st, 'idle') and self.has(st, 'nonew')):
                    self.report('%s: finished' % f.qn, 'a thread is marked finished although others may still run or have left checkpoints',
                                st, f.loc(nid))
            return [(st, ZERO)]
        if q == 'ThreadsController::hasThreads' and len(args) == 2 and args[1] == const(self.status['RUNNING']):
            return self.fork(st, (ONE, (), ('idle',)), (ZERO, ('idle',), ()))
        if base in ('empty', 'size') and 'std::vector<Checkpoint' in q and self.entry == 'WAIT_FOR_FINISH_OR_NEW_CHECKPOINT' and self.has(st, 'held'):
            y = en.fresh(st, fid, nid, 'some')
            return self.fork(st, (ONE if base == 'empty' else ZERO, ('nonew',), ('new',)), (ZERO if base == 'empty' else y, ('new',), ('nonew',)))
        if q == 'ConditionGuard::acquire':
            self.add(st, 'held')
            return None
        if q == 'ConditionGuardImpl::wait':
            self.drop(st, lambda x: x[0] in ('idle', 'nonew'))
            return [(st, ZERO)]
        if base == 'addCheckpoint':
            if not self.has(st, 'held'):
                self.report('%s: checkpoint' % f.qn, 'a checkpoint is published without the lock the other threads check under', st, f.loc(nid))
            self.add(st, 'checkpointed')
            return [(st, ZERO)]
        if q.startswith('ConditionGuardImpl::notify'):
            self.add(st, 'notified')
            return [(st, ZERO)]
        if q == 'ThreadsController::executeAtStart':
            self.add(st, 'session')
            return [(st, ZERO)]
        if q == 'Funnel::getStatus':
            return self.fork(st, *[(const(v), ('funnel', ) if k == 'FUNNEL_START' else (), ('funnel',)) for k, v in sorted(self.funnel.items())])
        if base == 'getNextSource' and q.startswith(('DirectorySourceQueue', 'SourceQueue')):
            return self.fork(st, (ZERO, ('drained',), ()), (en.fresh(st, fid, nid, 'src'), ('source',), ()))
        if q == 'ThreadTransferHistory::addSource':
            return self.fork(st, (ZERO, ('refused',), ()), (ONE, ('kept',), ()))
        if q == 'DirectorySourceQueue::fileDiscoveryFinished':
            return self.fork(st, (ZERO, (), ()), (ONE, ('discovered',), ()))
        if q == 'SenderThread::sendOneByteSource':
            bad = st.copy()
            self.set_err(st, LAST, ZERO)
            v = en.fresh(bad, fid, nid, 'code')
            bad.assume(cmp_('!=', v, ZERO))
            self.set_err(bad, LAST, v)
            return [(st, TOP), (bad, TOP)]
        if q == 'SenderThread::getThreadAbortCode':
            v = en.fresh(st, fid, nid, 'abort')
            s = st.copy()
            s.assume(cmp_('==', v, const(self.V_MISMATCH)))
            self.add(s, 'mismatch')
            st.assume(cmp_('!=', v, const(self.V_MISMATCH)))
            return [(s, const(self.V_MISMATCH)), (st, v)]
        if q.endswith('::hasNewTransferStarted'):
            return self.fork(st, (ZERO, (), ()), (ONE, ('started',), ()))
        if q == 'ThreadTransferHistory::markAllAcknowledged':
            self.add(st, 'acked')
            return [(st, ZERO)]
        if q == 'ThreadTransferHistory::setLocalCheckpoint':
            v = en.fresh(st, fid, nid, 'verdict')
            st.store[('G', 'verdict')] = v
            self.add(st, 'checkpoint')
            return [(st, v)]
        if q == 'SenderThread::reset':
            self.add(st, 'reset')
            en.havoc_args(st, f, fid, nid, n, args)
            return None
        if q == 'Protocol::encodeSettings' and args[-1] != TOP:
            st.store[SFC] = st.read(('F', to_loc(args[-1]), 'Settings::sendFileChunks'))
            return None
        if q == 'TransferHistoryController::handleVersionMismatch':
            bad = st.copy()
            v = en.fresh(bad, fid, nid, 'code')
            bad.assume(cmp_('!=', v, ZERO))
            self.add(st, 'returned')
            return [(st, ZERO), (bad, v)]
        if base == 'setProtoNegotiationStatus':
            self.drop(st, lambda x: x[0] == 'status')
            if args[0] != TOP and args[0][0] == 'c':
                self.add(st, 'status', args[0][1])
            return [(st, ZERO)]
        if base == 'getNegotiationStatus':
            v = en.fresh(st, fid, nid, 'neg')
            st.store[NEG] = v
            return [(st, v)]
        if base == 'clearAbort':
            self.add(st, 'cleared')
            return None
        if n.get('repo') and self.footer(n):
            self.add(st, 'footer')
            return None
        return None

    # -- reasons --
    def holds(self, st, why):
        has = lambda *t: self.has(st, *t)
        if why.endswith('_CMD') or '|' in why:
            v = st.store.get(CMD)
            ks = self.cmds(st) or ()
            return bool(set(ks) & set(why.split('|')))
        if why == 'err':
            e = self.err(st)
            return e is not None and st.truth(cmp_('!=', e, ZERO)) is True
        if why == 'noerr':
            e = self.err(st)
            return e is not None and st.truth(cmp_('==', e, ZERO)) is True
        if why == 'first':
            return st.truth(cmp_('==', E0, ZERO)) is True
        if why == 'again':
            return st.truth(cmp_('!=', E0, ZERO)) is True
        if why == 'mismatch0':
            return st.truth(cmp_('==', E0, const(self.V_MISMATCH))) is True
        if why == 'notmismatch0':
            return st.truth(cmp_('!=', E0, const(self.V_MISMATCH))) is True
        if why == 'noabort':
            v = st.store.get(CMD)
            return v is None or v != TOP and st.truth(cmp_('!=', v, const(self.magic['ABORT_CMD']))) is True
        if why == 'chunks':
            return yes(st, st.store.get(SFC)) is True
        if why == 'nochunks':
            return yes(st, st.store.get(SFC)) is False
        if why == 'donefailed':
            return not has('checkpoint') and self.is_(st, NUMB, -1) is True
        if why == 'checkpoint':
            v = st.store.get(('G', 'verdict'))
            return has('checkpoint') and v is not None and v != TOP and st.truth(cmp_('!=', v, const(self.INVALID))) is True
        if why == 'unsized':
            return yes(st, st.read(me('SenderThread::totalSizeSent_'))) is False and self.sizes(st) is True
        if why == 'sized':
            return not has('discovered') or yes(st, st.read(me('SenderThread::totalSizeSent_'))) is True or self.sizes(st) is False
        if why == 'size':
            return yes(st, st.read(me('SenderThread::totalSizeSent_'))) is True
        if why in ('sent', 'notsent'):
            e = self.err(st, LAST)
            return e is not None and st.truth(cmp_('==' if why == 'sent' else '!=', e, ZERO)) is True
        if why == 'remotemismatch':
            return self.is_(st, REMOTE, self.V_MISMATCH) is True
        if why == 'negotiated':
            return self.is_(st, NEG, self.V_RESOLVED) is True or has('funnel') and has('status', self.V_RESOLVED) and has('cleared') and has('returned')
        if why == 'adopted':
            return has('adopted') and has('footer')
        if why == 'finished':
            return ('mark', self.status['FINISHED']) in st.rs and has('notified')
        if why == 'running':
            return ('mark', self.status['RUNNING']) in st.rs
        if why == 'pending':
            v = st.read(me('ReceiverThread::pendingCheckpointIndex_'))
            return v == TOP or not {PEND0, IDX0} & {v}
        if why == 'applied':
            a, b = st.read(me('ReceiverThread::checkpointIndex_')), st.read(me('ReceiverThread::pendingCheckpointIndex_'))
            return TOP not in (a, b) and st.truth(cmp_('==', a, b)) is True
        return has(why)

    def sizes(self, st):
        v = st.read(me('WdtThread::threadProtocolVersion_'))
        return None if v == TOP else st.truth(cmp_('>=', v, const(self.progress)))

    def on_exit(self, en, st, fn, ret):
        self.count('exits')
        names = [k for k, v in self.enum.items() if ret == TOP or st.truth(cmp_('==', ret, const(v))) is not False]
        if len(names) != 1:
            self.report('%s: unknown' % self.entry, 'the next state of %s is not one state of the protocol' % self.entry, st, fn.loc())
            return
        k = names[0]
        want = self.spec.get(k)
        if want is None:
            self.report('%s: %s' % (self.entry, k), 'state %s goes on to %s, which the protocol does not allow' % (self.entry, k), st, fn.loc())
            return
        self.taken.add(k)
        for why in want.split():
            if not self.holds(st, why):
                self.report('%s: %s: %s' % (self.entry, k, why), 'state %s goes on to %s although this was not established: %s'
                            % (self.entry, k, REASON.get(why, 'the command received is ' + why.replace('|', ' or '))), st, fn.loc())


REASON = {
    'err': 'an error is recorded', 'noerr': 'the error of the previous connection is cleared', 'first': 'there was no error before',
    'again': 'there was an error before', 'reset': 'the thread was reset for the new connection', 'mismatch': 'the transfer was aborted for a version mismatch',
    'donefailed': 'the checkpoint says that the receiver failed to send DONE', 'checkpoint': 'a valid checkpoint was applied', 'nochunks': 'the settings do not ask for file chunks',
    'chunks': 'the settings ask for file chunks', 'kept': 'the block was recorded in the history', 'sent': 'the block was sent without error',
    'notsent': 'sending the block failed', 'unsized': 'the total size was not sent on this connection', 'discovered': 'all files are discovered',
    'drained': 'no block is left', 'sized': 'the total size, if known, was sent', 'refused': 'the history refused the block',
    'size': 'the total size is marked as sent', 'noabort': 'the receiver did not send ABORT', 'acked': 'all blocks were marked acknowledged',
    'remotemismatch': 'the receiver aborted for a version mismatch', 'version': 'the negotiated version was recorded',
    'negotiated': 'the version was negotiated', 'adopted': 'the thread took over the negotiated version and what depends on it (the kind of footer)',
    'started': 'another thread started the session', 'accepted': 'a connection was accepted', 'session': 'the session was started',
    'applied': 'the checkpoints that were sent are marked as used', 'pending': 'the checkpoints sent are remembered', 'eos': 'the end of the stream was seen',
    'mismatch0': 'the error is a version mismatch', 'notmismatch0': 'the error is not a version mismatch',
    'finished': 'the thread is marked finished, under the lock, and the others are notified', 'running': 'the thread is marked as running',
    'new': 'there are new checkpoints', 'checkpointed': 'the checkpoint of the thread is published',
}


class Loop(Rule):
    """the loop that runs a state table"""
    affine = True
    K = 16

    def init(self):
        return frozenset()

    def is_event(self, f, nid, n):
        return n['k'] == 'call' and (not n.get('f') or n.get('f', '').rsplit('::', 1)[-1] in
                                     ('getThreadAbortCode', 'getCurAbortCode', 'deRegisterThread', 'executeAtEnd', 'executeAtStart'))

    def should_inline(self, k):
        f = self.prog.F[k]
        return f.cls == self.cls and f.name not in ('getThreadAbortCode',) and super().should_inline(k)

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        base = n.get('f', '').rsplit('::', 1)[-1]
        rs = st.rs
        if base in ('getThreadAbortCode', 'getCurAbortCode'):
            buf = st.read(('F', ('P', THIS), 'WdtThread::buf_'))
            if buf != TOP and st.truth(cmp_('==', buf, ZERO)) is True:
                rs = rs | {'nobuf'}
            v = en.fresh(st, fid, nid, 'abort')
            bad = st.copy()
            bad.assume(cmp_('!=', v, ZERO))
            mm = bad.copy()
            ok = mm.assume(cmp_('==', v, const(self.mismatch)))
            bad.assume(cmp_('!=', v, const(self.mismatch)))
            st.rs = (rs | {'polled'}) - {'aborted', 'mismatch'}
            bad.rs = (rs | {'polled', 'aborted'}) - {'mismatch'}
            mm.rs = (rs | {'polled', 'aborted', 'mismatch'})
            return [(st, ZERO), (bad, v), (mm, const(self.mismatch))]
        if base in ('deRegisterThread', 'executeAtEnd', 'executeAtStart'):
            if base == 'executeAtEnd' and 'deRegisterThread' not in rs:
                self.report('order', 'the end of the session is announced before the thread is deregistered', st, f.loc(nid))
            st.rs = rs | {base}
            return [(st, ZERO)]
        if not n.get('f') and n.get('ce'):
            v = self.index(en, st, f, fid, n['ce'])
            self.count('steps')
            if v == TOP:
                self.report('index', 'the state that is entered is not the one that was returned', st, f.loc(nid))
                return [(st, TOP)]
            if 'polled' not in rs:
                self.report('poll', 'a state is entered without looking at the abort code', st, f.loc(nid))
            if 'aborted' in rs and not ('mismatch' in rs and self.cls == 'SenderThread' and
                                        st.truth(cmp_('==', v, const(self.enum['PROCESS_VERSION_MISMATCH']))) is True):
                self.report('aborted', 'a state is entered although the transfer was aborted', st, f.loc(nid))
            if 'stepped' not in rs and 'aborted' not in rs and v != const(self.enum[self.first]):
                self.report('first', 'the first state is not %s' % self.first, st, f.loc(nid))
            if 'stepped' in rs and 'aborted' not in rs and v != st.store.get(('G', 'next')):
                self.report('index', 'the state that is entered is not the one that was returned', st, f.loc(nid))
            if 'stepped' in rs and st.truth(cmp_('==', v, const(self.enum['END']))) is not False:
                self.report('end', 'the loop goes on after END', st, f.loc(nid))
            st.rs = (rs | {'stepped'}) - {'polled', 'aborted', 'mismatch'}
            x = ('sym', 'next')
            st.forget(x) if hasattr(st, 'forget') else None
            x = en.fresh(st, fid, nid, 'next')
            st.store[('G', 'next')] = x
            return [(st, x)]
        return None

    def index(self, en, st, f, fid, nid):
        seen, work = set(), [nid]
        while work:
            x = work.pop()
            if x in seen or x not in f.nodes:
                continue
            seen.add(x)
            m = f.nodes[x]
            if m['k'] == 'idx':
                i = m.get('i', m.get('e'))
                v = st.env.get((fid, i), TOP)
                return en.rv(st, f, v, i) if v != TOP else TOP
            for k in ('e', 'a', 'b', 'o', 'ce'):
                v = m.get(k)
                if isinstance(v, int):
                    work.append(v)
                elif isinstance(v, list):
                    work += v
        return TOP

    def on_exit(self, en, st, fn, ret):
        self.count('exits')
        if 'stepped' not in st.rs and 'polled' not in st.rs:
            return                                          # no buffer: the thread never started
        if 'deRegisterThread' not in st.rs or 'executeAtEnd' not in st.rs:
            self.report('left', 'the thread ends without telling the other threads', st, fn.loc())
        v = st.store.get(('G', 'next'))
        if 'stepped' not in st.rs and 'nobuf' in st.rs:
            return                                          # no buffer: there was nothing to step through
        if 'aborted' not in st.rs and (v is None or st.truth(cmp_('==', v, const(self.enum['END']))) is not True):
            self.report('left early', 'the thread ends in a state other than END', st, fn.loc())


def run(P, c):
    magic = P.enum('Protocol::CMD_MAGIC')
    errs = P.enum('ErrorCode')
    todo = []
    for cls, en_, spec, first in (('SenderThread', 'SenderState', SENDER, 'CONNECT'), ('ReceiverThread', 'ReceiverState', RECEIVER, 'LISTEN')):
        E = P.enum(en_)
        table = P.table(cls + '::stateMap_')
        c.need(table, 'state table of %s not found' % cls)
        c.check(set(E) == set(spec) | {'END'}, '%s: states' % cls, 'the states of %s are not those of the protocol: %s'
                % (cls, ', '.join(sorted(set(E) ^ (set(spec) | {'END'})))), '')
        for k, v in sorted(E.items(), key=lambda x: x[1]):
            if k == 'END' or k not in spec:
                continue
            if not c.check(v < len(table) and table[v], '%s: %s' % (cls, k), 'state %s has no function in the state table' % k, ''):
                continue
            todo.append((cls, E, spec, k, table[v]))
        todo.append((cls, E, None, first, cls + '::start'))
    todo.sort(key=lambda x: x[3] != 'PROCESS_FILE_CMD')

    def one(c, item):
        cls, E, spec, k, qn = item
        fs = [f for f in P.fns(qn)]
        c.need(fs, '%s not found' % qn)
        f = fs[0]
        if spec is None:
            r = Loop(P)
            r.cls, r.enum, r.first, r.mismatch = cls, E, k, errs['VERSION_MISMATCH']
            c.explore(r, f.key)
            c.need(r.stats.get('steps') or r.viol, 'no state is entered by %s' % qn)
            c.oblige('%s runs the state table' % qn, not r.viol)
            r.viol = {'%s: %s' % (qn, a): b for a, b in r.viol.items()}
            c.absorb(r)
            for a, b in r.stats.items():
                c.count(a, b)
            return
        r = Step(P)
        r.enum, r.spec, r.entry, r.magic, r.taken = E, spec[k], k, magic, set()
        r.V_MISMATCH, r.INVALID = errs['VERSION_MISMATCH'], errs['INVALID_CHECKPOINT']
        r.V_RESOLVED = P.enum('ProtoNegotiationStatus')['V_MISMATCH_RESOLVED']
        r.status = P.enum('ThreadStatus')
        r.funnel = P.enum('FunnelStatus')
        r.progress = gval(P, 'Protocol::RECEIVER_PROGRESS_REPORT_VERSION')

        def setup(st, fn, fid):
            r.set_err(st, STATS, E0)
            st.store[me('ReceiverThread::pendingCheckpointIndex_')] = PEND0
            st.store[me('ReceiverThread::checkpointIndex_')] = IDX0
            if k == 'WAIT_FOR_FINISH_OR_NEW_CHECKPOINT':
                st.assume(cmp_('==', E0, ZERO))
        c.explore(r, f.key, setup=setup)
        c.need(r.stats.get('exits') or r.viol, 'no exit of %s reached' % qn)
        for x in sorted(set(spec[k]) - r.taken):
            c.violation('%s: never %s' % (k, x), 'state %s never goes on to %s' % (k, x), f.loc())
        c.oblige('%s takes its documented transitions' % k, not r.viol)
        c.absorb(r)
        c.count('transitions', len(r.taken))
        for a, b in r.stats.items():
            c.count(a, b)
    c.parallel(one, todo)
    c.floor('states', len(todo) - 2, 29)
    c.floor('transitions', c.counts.get('transitions', 0), 70)

"""C10: blocks count as delivered only as far as the receiver acknowledged them; all others are sent again."""
from rules.c09 import Own, HIST, UP, is_tok
from wdtsa.sock import *
from wdtsa.foreach import ForEach

EXPLAIN = ('The functions that apply a checkpoint to a thread\'s history are explored with the number of blocks in the history, '
           'the number acknowledged and every field of the checkpoint as symbols: all and only the blocks after the acknowledged '
           'ones go back to the queue, a refused checkpoint changes nothing, and received bytes are credited only to the block '
           'the checkpoint names. The messages that acknowledge blocks are followed from the socket to markAllAcknowledged.')
RULE = 'symbolic counter and ownership dataflow over checkpoint handling; guard dominance for acknowledgements'
ASSUME = ['numAcknowledged_ is between 0 and the size of the history (established by every writer analysed here)']

H = 'ThreadTransferHistory::'
NA = H + 'numAcknowledged_'
LAST = H + 'lastCheckpoint_'
GLOB = H + 'globalCheckpoint_'
VALID = H + 'validateCheckpoint'
MARK = H + 'markSourceAsFailed'
CK = 'Checkpoint'
CKPT = ('P', ('sym', 'ckpt'))
SIZE = ('sym', 'hsize')


def fld(loc, name):
    return ('F', loc, 'Checkpoint::' + name)


def me(q):
    return ('F', ('P', THIS), q)


def same(st, a, b):
    return a == b or TOP not in (a, b) and st.truth(cmp_('==', a, b)) is True


def is_last(f, n):
    return n['k'] == 'call' and n.get('o') and f.nodes.get(n['o'], {}).get('f') == LAST


def last_ckpt(en, st, f, fid, nid, n, obj, args):
    """operations on the pointer lastCheckpoint_"""
    if not (obj and obj[0] == 'F' and obj[2] == LAST):
        return None
    base = n.get('f', '').rsplit('::', 1)[-1]
    if base == 'reset' or base == 'operator=':
        v = ZERO
        if args and args[0] != ZERO and 'nullptr' not in f.nodes.get(n['a'][0], {}).get('t', ''):
            v = en.fresh(st, fid, nid, 'ckpt')
            st.assume(cmp_('>', v, ZERO))
        st.write(obj, v)
        return [(st, to_addr(obj))]
    return None


class Apply(Own):
    """setCheckpointAndReturnToQueue and its wrappers"""
    opaque = frozenset({MARK, VALID})
    refuse = None
    K = 4
    want = None              # location of the number that may stay
    bad = None

    def part(self, st):
        return st.store.get(('G', 'put')) == ZERO, st.truth(cmp_('==', self.left(st), self.keep(st)))

    def should_inline(self, k):
        return self.prog.F[k].cls == CK or super().should_inline(k)

    def hints(self, st):
        return [cmp_('==', self.left(st), self.keep(st)), cmp_('>=', self.left(st), self.keep(st))]

    def is_event(self, f, nid, n):
        return super().is_event(f, nid, n) or n.get('f') in (MARK, VALID) or is_last(f, n)

    def lost(self, *a):
        pass

    def left(self, st):
        return ladd(ladd(SIZE, st.store.get(('G', 'put'), ZERO)), st.store.get(('G', 'pop'), ZERO), -1)

    def keep(self, st):
        return st.read(self.want)

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        q = n.get('f', '')
        base = q.rsplit('::', 1)[-1]
        if q == MARK:
            self.count('marked')
            v = st.read(to_loc(args[0])) if args[0] != TOP else TOP
            last = st.truth(cmp_('==', self.left(st), self.keep(st)))
            null = False if args[1] != TOP and args[1][0] == 'addr' else st.truth(cmp_('==', args[1], ZERO))
            if is_tok(v):
                st.store[('G', 'marked')] = ladd(st.store.get(('G', 'marked'), ZERO), ONE)
            if null is not True and last is not True:
                self.report('%s: wrong block credited' % f.qn, 'received bytes are credited to a block that is not the first unacknowledged one', st, f.loc(nid))
            if null is not False and last is not False:
                self.report('%s: block not credited' % f.qn, 'the bytes the receiver already has of the first unacknowledged block are ignored', st, f.loc(nid))
            if null is not True:
                p = ('P', args[1]) if args[1] != TOP and args[1][0] != 'addr' else to_loc(args[1])
                if self.bad is not None and p != CKPT or st.truth(cmp_('>=', st.read(fld(p, 'lastBlockReceivedBytes')), ZERO)) is not True:
                    self.report('%s: negative bytes' % f.qn, 'a block is credited with a possibly negative number of received bytes', st, f.loc(nid))
            return [(st, ZERO)]
        if q == VALID:
            self.count('validated')
            null = st.truth(cmp_('==', st.read(me(LAST)), ZERO))
            if null is True:
                return [(st, ZERO)]
            b = st.copy()
            v = en.fresh(st, fid, nid, 'ok')
            st.assume(cmp_('!=', v, const(self.refuse)))
            return [(st, v), (b, const(self.refuse))]
        v = last_ckpt(en, st, f, fid, nid, n, obj, args)
        if v is not None:
            return v
        if obj and obj[0] == 'F' and obj[2] == HIST:
            if base == 'size':
                return [(st, self.left(st))]
            if base == 'empty':
                return [(st, en.boolean(st, cmp_('==', self.left(st), ZERO)))]
            if base in ('back', 'pop_back') and base == 'pop_back':
                if st.truth(cmp_('>', self.left(st), self.keep(st))) is not True or st.truth(cmp_('>=', self.keep(st), ZERO)) is not True:
                    self.report('%s: acknowledged block taken back' % f.qn, 'a block the receiver acknowledged is taken out of the history, or more blocks than there are', st, f.loc(nid))
                self.count('popped')
        return super().on_call(en, st, f, fid, nid, n, obj, args)

    def on_exit(self, en, st, fn, ret):
        self.count('exits')
        pop = st.store.get(('G', 'pop'), ZERO)
        num = st.read(self.want)
        if self.bad is not None and (ret == TOP or st.truth(cmp_('==', ret, const(self.bad))) is not False):
            if st.truth(cmp_('==', ret, const(self.bad))) is True:
                self.count('refused')
                st0 = State()
                if pop != ZERO or not same(st, st.read(me(NA)), st0.read(me(NA))) or not same(st, st.read(me(GLOB)), st0.read(me(GLOB))):
                    self.report('%s: refused checkpoint applied' % fn.qn, 'a checkpoint that is refused changes the history', st, fn.loc())
                return
            self.report('%s: result' % fn.qn, 'cannot tell whether the checkpoint was refused', st, fn.loc())
            return
        self.count('applied')
        if st.truth(cmp_('<=', num, self.left(st))) is not True:
            self.report('%s: more than sent' % fn.qn, 'a checkpoint that acknowledges more blocks than were sent is accepted', st, fn.loc())
        if st.truth(cmp_('<=', self.left(st), num)) is not True:
            self.report('%s: unacknowledged block kept' % fn.qn, 'blocks the receiver did not acknowledge stay in the history', st, fn.loc())
        if not same(st, st.read(me(NA)), num):
            self.report('%s: acknowledged count' % fn.qn, 'the number of acknowledged blocks is not the one the receiver reported', st, fn.loc())
        if not same(st, st.store.get(('G', 'marked'), ZERO), pop):
            self.report('%s: not marked' % fn.qn, 'a block returned to the queue is not marked as failed', st, fn.loc())


BST = ('P', ('sym', 'bstats'))


class Credit(Rule):
    """markSourceAsFailed: what is credited to the block named by the checkpoint"""
    lock_havoc = False
    K = 8
    blk = ('sym', 'blk')
    size, off = ('sym', 'blksize'), ('sym', 'blkoff')
    kinds = ('data', 'header', 'blocks', 'attempts')

    def init(self):
        return frozenset()

    def is_event(self, f, nid, n):
        q = n.get('f', '')
        return q.startswith(('ByteSource::', 'TransferStats::')) or q.startswith(UP)

    def small(self, k, depth=0):
        return False

    def conds(self, st):
        p = CKPT
        return [cmp_('!=', CKPT[1], ZERO), ('bool', st.read(fld(p, 'hasSeqId'))),
                cmp_('==', st.read(fld(p, 'lastBlockSeqId')), st.read(('F', ('P', ('sym', 'meta')), 'SourceMetaData::seqId'))),
                cmp_('==', st.read(fld(p, 'lastBlockOffset')), self.off),
                cmp_('<=', st.read(fld(p, 'lastBlockReceivedBytes')), self.size),
                cmp_('==', ('sym', 'blkerr'), ZERO)]

    def part(self, st):
        return tuple(st.truth(x) for x in self.conds(st))

    def hints(self, st):
        return self.conds(st)

    def bump(self, st, obj, kind, d):
        who = 'block' if obj == BST else 'thread'
        g = ('G', (who, kind))
        st.store[g] = ladd(st.store.get(g, ZERO), d) if TOP not in (st.store.get(g, ZERO), d) else TOP
        self.count('stat_changes')

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        q = n.get('f', '')
        cls, _, base = q.rpartition('::')
        if q.startswith(UP) and base in ('operator->', 'get', 'operator*'):
            return [(st, self.blk)]
        if base == 'getMetaData':
            return [(st, ('addr', ('P', ('sym', 'meta'))))]
        if base == 'getOffset':
            return [(st, self.off)]
        if base == 'getSize' and cls != 'TransferStats':
            return [(st, self.size)]
        if base == 'getTransferStats':
            return [(st, ('addr', BST))]
        if base == 'advanceOffset':
            g = ('G', 'adv')
            if g in st.store:
                self.report('advanced twice', 'a block is advanced more than once for one checkpoint', st, f.loc(nid))
            st.store[g] = args[0]
            self.count('advances')
            return [(st, ZERO)]
        if cls == 'TransferStats':
            if base == 'getLocalErrorCode' or base == 'getErrorCode':
                return [(st, ('sym', 'blkerr') if obj == BST else en.fresh(st, fid, nid, 'e'))]
            if base == 'getEffectiveHeaderBytes':
                return [(st, ('sym', 'blkheader') if obj == BST else en.fresh(st, fid, nid, 'h'))]
            if base == 'addEffectiveBytes':
                self.bump(st, obj, 'header', args[0])
                self.bump(st, obj, 'data', args[1])
            elif base == 'subtractEffectiveBytes':
                self.bump(st, obj, 'header', lmul(args[0], -1))
                self.bump(st, obj, 'data', lmul(args[1], -1))
            elif base == 'decrNumBlocks':
                self.bump(st, obj, 'blocks', const(-1))
            elif base == 'incrNumBlocks':
                self.bump(st, obj, 'blocks', ONE)
            elif base == 'incrFailedAttempts':
                self.bump(st, obj, 'attempts', ONE)
            elif base == 'setLocalErrorCode':
                if obj == BST and st.truth(cmp_('!=', args[0], ZERO)) is True:
                    st.store[('G', 'failed')] = ONE
            return [(st, ZERO)]
        return None

    def on_exit(self, en, st, fn, ret):
        self.count('exits')
        adv = st.store.get(('G', 'adv'), ZERO)
        nonnull, seq, sid, off, fits, fresh = [st.truth(x) for x in self.conds(st)]
        got = st.read(fld(CKPT, 'lastBlockReceivedBytes'))
        zero = adv != TOP and st.truth(cmp_('==', adv, ZERO)) is True
        if not zero:
            self.count('credited')
            if not same(st, adv, got):
                self.report('credit amount', 'a block is advanced by something other than the bytes the receiver has', st, fn.loc())
            if nonnull is not True or not (seq is False or sid is True and off is True):
                self.report('credit to other block', 'received bytes are credited to a block the checkpoint does not name', st, fn.loc())
            if fits is not True:
                self.report('credit beyond block', 'a block may be credited with more bytes than it has', st, fn.loc())
        elif nonnull is True and fits is True and (seq is False or sid is True and off is True) and not same(st, got, ZERO):
            self.report('credit dropped', 'bytes the receiver already has are not credited to the block the checkpoint names', st, fn.loc())
        if fresh is not False and st.store.get(('G', 'failed')) != ONE:
            self.report('not failed', 'a block that goes back to the queue is not marked as failed', st, fn.loc())
        for k in self.kinds:
            a, b = (st.store.get(('G', (w, k)), ZERO) for w in ('block', 'thread'))
            if not same(st, a, b):
                self.report('totals ' + k, 'the statistics of the thread and of the block are not corrected by the same %s' % k, st, fn.loc())
        d = st.store.get(('G', ('block', 'data')), ZERO)
        want = adv if fresh is False else ladd(adv, self.size, -1) if adv != TOP else TOP
        if not same(st, d, want):
            self.report('effective bytes', 'the effective bytes of a failed block are not the bytes the receiver has', st, fn.loc())


class Valid(Rule):
    """validateCheckpoint"""
    lock_havoc = False
    K = 12

    def init(self):
        return frozenset()

    def is_event(self, f, nid, n):
        return is_last(f, n)

    def small(self, k, depth=0):
        return False

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        return last_ckpt(en, st, f, fid, nid, n, obj, args)

    def part(self, st):
        old = ('P', st.read(me(LAST)))
        return (st.truth(cmp_('==', st.read(me(LAST)), ZERO)),) + tuple(st.truth(cmp_(o, st.read(fld(CKPT, x)), st.read(fld(old, x))))
            for o, x in (('<', 'numBlocks'), ('>', 'numBlocks')))

    def on_exit(self, en, st, fn, ret):
        self.count('exits')
        null, less, more = self.part(st)
        if ret == TOP:
            self.report('validate: result', 'cannot tell how a checkpoint is judged', st, fn.loc())
            return
        bad = st.truth(cmp_('==', ret, const(self.refuse)))
        if null is True and st.truth(cmp_('==', ret, ZERO)) is not True:
            self.report('validate: first', 'the first checkpoint of a connection is refused', st, fn.loc())
        if null is not True and less is not False and bad is not True:
            self.report('validate: backwards', 'a checkpoint that takes back acknowledged blocks is not refused', st, fn.loc())
        if null is False and more is True and st.truth(cmp_('==', ret, ZERO)) is not True:
            self.report('validate: progress', 'a checkpoint that acknowledges more blocks is not accepted', st, fn.loc())
        self.count('refused' if bad is True else 'accepted')


class Pass(Rule):
    """wrappers hand the same checkpoint on and return its result"""
    lock_havoc = False
    K = 8
    to = H + 'setCheckpointAndReturnToQueue'
    opaque = frozenset({H + 'setCheckpointAndReturnToQueue'})
    glob = 0

    def init(self):
        return frozenset()

    def is_event(self, f, nid, n):
        return n.get('f') == self.to

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        if n.get('f') == self.to:
            self.count('handed_on')
            if args[0] == TOP or ('P', CKPT[1]) not in (to_loc(args[0]), ('P', args[0])):
                self.report('%s: other checkpoint' % f.qn, 'not the received checkpoint is applied', st, f.loc(nid))
            if st.truth(cmp_('==', args[1], const(self.glob))) is not True:
                self.report('%s: kind' % f.qn, 'the checkpoint is applied as the wrong kind', st, f.loc(nid))
            st.store[('G', 'n')] = ladd(st.store.get(('G', 'n'), ZERO), ONE)
            return [(st, ('sym', 'status'))]
        return None

    def on_exit(self, en, st, fn, ret):
        self.count('exits')
        if st.store.get(('G', 'n')) != ONE:
            self.report('%s: not applied' % fn.qn, 'a received checkpoint is not applied exactly once', st, fn.loc())
        if ret != ('sym', 'status'):
            self.report('%s: result' % fn.qn, 'the result of applying a checkpoint is lost', st, fn.loc())


class Later(Rule):
    """addSource after a global checkpoint"""
    lock_havoc = False
    K = 8
    opaque = frozenset({MARK, 'DirectorySourceQueue::returnToQueue'})

    def init(self):
        return frozenset()

    def is_event(self, f, nid, n):
        return n.get('f') in self.opaque or n['k'] == 'call' and UP in n.get('f', '') or is_last(f, n)

    def part(self, st):
        return st.truth(('bool', State().read(me(GLOB))))

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        q = n.get('f', '')
        if q == MARK:
            self.count('marked')
            if st.read(me(LAST)) != args[1]:
                self.report('late block', 'a block added after the global checkpoint is not judged by that checkpoint', st, f.loc(nid))
            st.rs = st.rs | {'marked'}
            return [(st, ZERO)]
        if q == 'DirectorySourceQueue::returnToQueue':
            if 'marked' not in st.rs:
                self.report('late block unmarked', 'a block is returned to the queue without being marked as failed', st, f.loc(nid))
            st.rs = st.rs | {'returned'}
            return [(st, ZERO)]
        if obj and obj[0] == 'F' and obj[2] == HIST and q.rsplit('::', 1)[-1] in ('emplace_back', 'push_back'):
            st.rs = st.rs | {'kept'}
            return [(st, ZERO)]
        return last_ckpt(en, st, f, fid, nid, n, obj, args)

    def on_exit(self, en, st, fn, ret):
        self.count('exits')
        g = st.truth(('bool', State().read(me(GLOB))))
        if 'returned' in st.rs:
            if st.truth(cmp_('==', st.read(me(LAST)), ZERO)) is not True:
                self.report('credited twice', 'the received bytes of a global checkpoint can be credited to a second block', st, fn.loc())
            if st.truth(cmp_('==', ret, ZERO)) is not True:
                self.report('late block result', 'the sending thread is not told that its block went back to the queue', st, fn.loc())
        else:
            if 'kept' not in st.rs or g is not False:
                self.report('late block kept', 'a block enters the history although the receiver already gave up on this connection', st, fn.loc())
            if st.truth(cmp_('!=', ret, ZERO)) is not True:
                self.report('block result', 'the sending thread is told that its block went back to the queue although it did not', st, fn.loc())


ACK = H + 'markAllAcknowledged'
CK = 'Checkpoint'
DECODED = ('P', ('sym', 'ck0'))
NCK = ('sym', 'nck')


class Msg(SockRule):
    """state functions of the sender thread: which message acknowledges blocks"""
    decode = True
    acks = {}
    ret_enum = {}
    opaque = frozenset({'SenderThread::sendOneByteSource', 'SenderThread::readHeartBeats'})
    follow = frozenset({'SenderThread::readNextReceiverCmd', 'SenderThread::readAndVerifySpuriousCheckpoint'})
    bad_code = None

    def is_event(self, f, nid, n):
        q = n.get('f', '')
        return super().is_event(f, nid, n) or q.startswith('ThreadTransferHistory::') or q.startswith('std::vector<') and CK in q

    def should_inline(self, k):
        f = self.prog.F[k]
        if f.cls in ('ThreadTransferHistory', 'TransferHistoryController', 'DirectorySourceQueue', 'TransferStats', 'WdtBase',
                     'Sender', 'Throttler'):
            return False
        return super().should_inline(k)

    def moved(self, en, st, f, nid, n, base, args, v):
        if base == 'write':
            return
        self.drop(st, lambda x: x == ('cmd',))
        if args[1] == ONE and args[0] != TOP:
            self.add(st, 'cmd')
            st.store[('G', 'cmd')] = st.read(('X', to_loc(args[0]), ZERO))

    def other_call(self, en, st, f, fid, nid, n, obj, args):
        q = n.get('f', '')
        base = q.rsplit('::', 1)[-1]
        if q == ACK:
            self.add(st, 'ack')
            self.count('acks')
            return [(st, ZERO)]
        if q == H + 'setLocalCheckpoint':
            self.count('local')
            if args[0] == TOP or DECODED not in (to_loc(args[0]), ('P', args[0])):
                self.report('local checkpoint', 'not the checkpoint just read is applied', st, f.loc(nid))
            if self.bads(st):
                self.report('local checkpoint unread', 'a checkpoint is applied that was not read or decoded', st, f.loc(nid))
            self.one(st, f, nid, 'a local checkpoint')
            bad = st.copy()
            bad_ok = bad.assume(cmp_('==', ('sym', 'applied'), const(self.bad_code)))
            st.assume(cmp_('!=', ('sym', 'applied'), const(self.bad_code)))
            self.add(bad, 'refused')
            self.add(st, 'applied')
            return [(st, ('sym', 'applied')), (bad, ('sym', 'applied'))]
        if q.startswith('std::vector<') and CK in q and obj is not None:
            if base == 'size':
                return [(st, NCK)]
            if base == 'empty':
                return [(st, en.boolean(st, cmp_('==', NCK, ZERO)))]
            if base in ('operator[]', 'at', 'front', 'back'):
                if base in ('front', 'back') or args[0] == ZERO:
                    return [(st, ('addr', DECODED))]
        return None

    def one(self, st, f, nid, what):
        if st.truth(cmp_('==', NCK, ONE)) is not True:
            self.report('%s: several' % f.qn, '%s is accepted from a message with any number of checkpoints' % what, st, f.loc(nid))
        if st.truth(cmp_('==', st.read(fld(DECODED, 'port')), st.read(me('WdtThread::port_')))) is not True:
            self.report('%s: port' % f.qn, '%s of another port is accepted' % what, st, f.loc(nid))

    def on_exit(self, en, st, fn, ret):
        self.count('exits')
        E_ = self.ret_enum
        for k in self.acks:
            if ret != TOP and st.truth(cmp_('==', ret, const(k))) is False:
                continue
            self.count('ack_transitions')
            v = st.store.get(('G', 'cmd'))
            if not self.has(st, 'cmd') or v is None or not any(st.truth(cmp_('==', v, const(c))) for c in self.acks[k]):
                self.report('%s: acknowledged without a message' % fn.qn,
                            '%s goes to %s, which acknowledges blocks, without having read that command' % (fn.qn, E_.get(k, k)), st, fn.loc())
        if self.has(st, 'refused') and st.truth(cmp_('==', ret, const(self.end))) is not True:
            self.report('%s: refused checkpoint' % fn.qn, 'the thread goes on after it refused the receiver\'s checkpoint', st, fn.loc())
        self.exit2(en, st, fn, ret)

    def exit2(self, en, st, fn, ret):
        pass


class LocalCk(Msg):
    """readLocalCheckPoint"""
    def exit2(self, en, st, fn, ret):
        if self.bads(st) or self.has(st, 'refused') or ret != TOP and st.truth(cmp_('==', ret, const(self.end))) is True:
            return
        if self.has(st, 'applied'):
            self.count('applied')
            return
        self.one(st, fn, None, 'a local checkpoint')
        if st.truth(cmp_('==', st.read(fld(DECODED, 'numBlocks')), const(-1))) is not True:
            self.report('checkpoint ignored', 'a local checkpoint is read and not applied', st, fn.loc())
        if ret == TOP or st.truth(cmp_('==', ret, const(self.cmd_state))) is not True:
            self.report('done again', 'after the receiver said it had everything the thread does not wait for its command', st, fn.loc())


class Spurious(Msg):
    """readAndVerifySpuriousCheckpoint"""
    def exit2(self, en, st, fn, ret):
        if ret != TOP and st.truth(cmp_('!=', ret, ZERO)) is True:
            return
        if self.bads(st):
            return                                  # C07
        self.count('spurious')
        self.one(st, fn, None, 'an unexpected checkpoint')
        for x in ('numBlocks', 'lastBlockReceivedBytes'):
            if st.truth(cmp_('==', st.read(fld(DECODED, x)), ZERO)) is not True:
                self.report('spurious ' + x, 'an unexpected checkpoint that reports progress is ignored', st, fn.loc())


class ErrCk(ForEach):
    """every checkpoint of an ERR message is applied"""
    over = ('checkpoints',)
    name = 'checkpoints'
    to = 'TransferHistoryController::handleGlobalCheckpoint'
    opaque = frozenset({'TransferHistoryController::handleGlobalCheckpoint'})
    q = ''

    def should_inline(self, k):
        return self.prog.F[k].cls == 'SenderThread' and super().should_inline(k)

    def container(self, st, obj):
        return self.name if CK + '>' in self.q or CK + ',' in self.q else None

    def is_event(self, f, nid, n):
        q = n.get('f', '')
        return q.startswith('std::vector<') and CK in q or q in (self.to, 'Protocol::decodeCheckpoints')

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        self.q = n.get('f', '')
        return super().on_call(en, st, f, fid, nid, n, obj, args)

    def other_call(self, en, st, f, fid, nid, n, obj, args):
        if n.get('f') == 'Protocol::decodeCheckpoints':
            en.havoc_args(st, f, fid, nid, n, args)
            b = st.copy()
            self.add(st, ('decoded',))
            return [(st, ONE), (b, ZERO)]
        if n.get('f') == self.to:
            self.count('applied')
            if self.is_elem(st, args[0], self.name):
                self.drop(st, lambda x: x[0] == 'todo')
            return [(st, ZERO)]
        return None

    def elem_start(self, en, st, f, nid, m):
        self.add(st, ('todo', m))

    def elem_end(self, en, st, f, nid, m):
        if self.has(st, ('todo', m)):
            self.report('checkpoint skipped', 'a global checkpoint is not applied to its thread\'s history', st, f.loc(nid))

    def on_exit(self, en, st, fn, ret):
        self.count('exits')
        if self.has(st, ('decoded',)) and self.phase(st, self.name) != 'end':
            self.report('checkpoints left', 'global checkpoints are decoded and not all applied', st, fn.loc())


class Finish(ForEach):
    """Sender::finish"""
    over = ('WdtTransferRequest::ports',)
    back = H + 'returnUnackedSourcesToQueue'

    def should_inline(self, k):
        return self.prog.F[k].cls == 'Sender' and super().should_inline(k)

    def is_event(self, f, nid, n):
        return super().is_event(f, nid, n) or n.get('f') in (ACK, self.back, 'TransferStats::getErrorCode', 'ThreadTransferHistory::popAckedSourceStats')

    def part(self, st):
        return tuple(x for x in sorted(map(str, st.rs)))

    def other_call(self, en, st, f, fid, nid, n, obj, args):
        q = n.get('f', '')
        if q == 'TransferStats::getErrorCode':
            b = st.copy()
            self.count('asked')
            v = en.fresh(b, fid, nid, 'err')
            b.assume(cmp_('!=', v, ZERO))
            self.add(st, ('ok',))
            return [(st, ZERO), (b, v)]
        if q == ACK:
            self.count('acked')
            if not self.has(st, ('ok',)):
                self.report('all acknowledged', 'all blocks are taken as delivered although no thread finished without an error', st, f.loc(nid))
            self.drop(st, lambda x: x == ('todo',))
            return [(st, ZERO)]
        if q == self.back:
            self.count('returned')
            self.drop(st, lambda x: x == ('todo',))
            return [(st, ZERO)]
        if q == 'ThreadTransferHistory::popAckedSourceStats' and self.has(st, ('todo',)):
            self.report('counted unsettled', 'the blocks of a history are reported before unacknowledged ones were returned', st, f.loc(nid))
        return None

    def elem_start(self, en, st, f, nid, m):
        self.add(st, ('todo',))

    def elem_end(self, en, st, f, nid, m):
        if self.has(st, ('todo',)):
            self.report('port skipped', 'unacknowledged blocks of a thread are neither acknowledged nor returned', st, f.loc(nid))

    def on_exit(self, en, st, fn, ret):
        self.count('exits')


def run(P, c):
    en = P.enum('ErrorCode')

    def go(r, qn, setup=None, tag=None, floor=('exits',)):
        fs = P.fns(qn)
        c.need(len(fs) == 1, '%s not found' % qn)
        c.explore(r, fs[0].key, setup=setup)
        for x in floor:
            c.need(r.stats.get(x) or r.viol, 'no %s in %s' % (x, qn))
        c.oblige('%s: %s' % (qn, type(r).__doc__ or ''), not r.viol)
        c.absorb(r, tag or qn.rsplit('::', 1)[-1])
        for k, v in r.stats.items():
            c.counts[k] = c.counts.get(k, 0) + v
        return r

    def base(st):
        for k in ('put', 'pop', 'marked'):
            st.store[('G', k)] = ZERO
        st.assume(cmp_('>=', SIZE, ZERO))
        st.assume(cmp_('>=', st.read(me(NA)), ZERO))
        st.assume(cmp_('<=', st.read(me(NA)), SIZE))

    # -- the history ---------------------------------------------------
    r = Apply(P)
    r.want = fld(CKPT, 'numBlocks')
    r.bad = r.refuse = en['INVALID_CHECKPOINT']

    def arg(i=0, null=False):
        def s(st, f, fid):
            base(st)
            st.store[('L', fid, f.params[i]['d'])] = CKPT[1]
            if not null:
                st.assume(cmp_('>', CKPT[1], ZERO))
        return s
    go(r, H + 'setCheckpointAndReturnToQueue', arg(), floor=('applied', 'refused', 'popped'))

    class Unacked(Apply):
        def keep(self, st):
            return State().read(me(NA))
    r = Unacked(P)
    r.want = me(NA)
    r.refuse = en['INVALID_CHECKPOINT']
    go(r, H + 'returnUnackedSourcesToQueue', lambda st, f, fid: base(st), floor=('applied', 'popped'))

    r = Valid(P)
    r.refuse = en['INVALID_CHECKPOINT']
    go(r, VALID, arg(), floor=('refused', 'accepted'))

    def s2(st, f, fid):
        arg(1, True)(st, f, fid)
        st.assume(cmp_('>=', Credit.size, ZERO))
        st.assume(cmp_('>=', CKPT[1], ZERO))
    go(Credit(P), MARK, s2, floor=('credited', 'advances', 'stat_changes'))
    for g, q in enumerate(('setLocalCheckpoint', 'setGlobalCheckpoint')):
        r = Pass(P)
        r.glob = g
        go(r, H + q, arg(), floor=('handed_on',))
    go(Later(P), H + 'addSource', floor=('marked',))
    # writers of the acknowledged count
    for f in P.F.values():
        for nid, n in f.nodes.items():
            if n['k'] in ('assign', 'cassign', 'incdec') and f.nodes.get(n.get('l') if isinstance(n.get('l'), str) else n.get('a'), {}).get('f') == NA:
                c.check(f.key in c.funcs or f.qn == ACK, '%s sets the acknowledged count' % f.qn,
                        '%s changes the number of acknowledged blocks outside the analysed functions' % f.qn, f.loc(nid))

    # -- the messages --------------------------------------------------
    S = P.enum('SenderState')
    cmds = P.enum('Protocol::CMD_MAGIC')
    fs = sorted([f for f in P.F.values() if f.cls == 'SenderThread' and f.ret.rsplit('::', 1)[-1] == 'SenderState' and not f.params],
                key=lambda f: f.qn)
    order = P.table('SenderThread::stateMap_')
    c.need(order and all(order) and len(order) == len(S) - 1, 'state table of the sender thread not readable')
    ack = {}

    def state(r):
        r.ret_enum = {v: k for k, v in S.items()}
        r.end = S['END']
        r.bad_code = en['INVALID_CHECKPOINT']
        r.cmd_state = S['READ_RECEIVER_CMD']
        return r
    acking = set()
    for f in P.F.values():
        if f.cls == 'SenderThread' and any(n.get('f') == ACK for _, n in f.calls()):
            acking |= {f.key}
    for i, q in enumerate(order):
        if acking & (P.transitive_callees(P.fns(q)[0].key) | {P.fns(q)[0].key}):
            ack[i] = [cmds[k] for k in ('DONE_CMD', 'WAIT_CMD', 'ERR_CMD')]
    c.need(len(ack) >= 2, 'no state acknowledges blocks')
    names = {}
    for f in fs:
        r = state({'SenderThread::readLocalCheckPoint': LocalCk}.get(f.qn, Msg)(P))
        r.acks = ack
        go(r, f.qn, tag='')
    c.need(c.counts.get('ack_transitions'), 'no transition to an acknowledging state found')
    c.need(c.counts.get('local') and c.counts.get('applied'), 'no local checkpoint is applied')
    go(state(Spurious(P)), 'SenderThread::readAndVerifySpuriousCheckpoint', floor=('exits', 'spurious'))
    go(ErrCk(P), 'SenderThread::processErrCmd', floor=('exits', 'applied', 'loops'))
    go(Finish(P), 'Sender::finish', floor=('exits', 'acked', 'returned', 'asked', 'loops'))
    # nobody else takes blocks as delivered
    for f in P.F.values():
        for nid, n in f.calls():
            if n.get('f') == ACK:
                c.check(f.key in c.funcs, '%s acknowledges' % f.qn, '%s takes all blocks as delivered outside the analysed functions' % f.qn, f.loc(nid))
    c.floor('functions_of_the_thread', len(fs), 13)

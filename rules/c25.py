"""C25: the reported result of a transfer is what happened."""
from wdtsa.foreach import ForEach
from wdtsa.engine import *

EXPLAIN = ('The constructors of both reports, the merge and reset of statistics, and the functions that hand a report to the caller '
           'are explored with every statistic, error code and container as a symbol. Success is reported only on paths where the merged '
           'threads, failed sources, failed directories, block and byte totals allow it, and is not withheld where nothing failed. The SIZE and DONE '
           'commands are explored on both sides: the totals and the status written are those of the queue, and what is decoded is what is stored.')
RULE = 'path-sensitive relation between the merged statistics and the reported error code'
ASSUME = ['a source on the list of failed sources carries the error it failed with',
          'the order of ErrorCode values (which of two errors is more interesting) is not judged, only OK against not OK']

TS, TR = 'TransferStats::', 'TransferReport::'
SUM = ('F', ('P', THIS), TR + 'summary_')
THREADS, FAILED, DIRS = TR + 'threadStats_', TR + 'failedSourceStats_', TR + 'failedDirectories_'
MERGED, EFF, SOME = ('sym', 'merged'), ('sym', 'eff'), ('sym', 'someerr')
BOTH = 'getMoreInterestingError'
COUNTERS = ('headerBytes_', 'dataBytes_', 'effectiveHeaderBytes_', 'effectiveDataBytes_', 'numFiles_', 'numBlocks_', 'failedAttempts_')


def me(q):
    return ('F', ('P', THIS), q)


def true(st, v):
    return v != TOP and st.truth(v) is True


def eq(a, b):
    return TOP if TOP in (a, b) else cmp_('==', a, b)


def combine(en, st, f, fid, nid, n, args):
    """getMoreInterestingError: OK only if both are (decided by itself)"""
    if n.get('f') != BOTH or len(args) != 2:
        return None
    a, b = [en.rv(st, f, x, y) for x, y in zip(args, n['a'])]
    if TOP in (a, b):
        return None
    out = []
    for za in (True, False):
        for zb in (True, False):
            x = st.copy()
            ok = True
            for v, z in ((a, za), (b, zb)):
                t = x.truth(cmp_('==', v, ZERO))
                ok = ok and t in (None, z) and x.assume(cmp_('==' if z else '>', v, ZERO))
            if ok:
                x.store[('G', 'someerr')] = SOME
                x.assume(cmp_('>', SOME, ZERO))
                out.append((x, ZERO if za and zb else SOME))
    return out


def maxof(en, st, f, fid, nid, n, args):
    q = n.get('f', '')
    if n.get('repo') or q.rsplit('::', 1)[-1] not in ('max', 'min') or len(args) != 2:
        return None
    locs = [to_loc(a) if a != TOP and a[0] == 'addr' else None for a in args]
    a, b = [st.read(l) if l else x for l, x in zip(locs, args)]
    if TOP in (a, b):
        return None
    o = st.copy()
    out = []
    for s, op in ((st, '>='), (o, '<')):
        if s.truth(cmp_(op, a, b)) is not False and s.assume(cmp_(op, a, b)):
            v = args[0 if (op == '>=') == q.endswith('max') else 1]
            if locs[0] is None:
                s.store[('G', 'maxres')] = v
                v = ('addr', ('G', 'maxres'))
            out.append((s, v))
    return out


class Report(ForEach):
    K = 16
    cls = 'TransferReport'

    def is_event(self, f, nid, n):
        return super().is_event(f, nid, n) or n.get('f', '').startswith((TS, TR)) or n.get('f') == BOTH

    def should_inline(self, k):
        f = self.prog.F[k]
        return f.cls == 'TransferReport'

    def other_call(self, en, st, f, fid, nid, n, obj, args):
        q = n.get('f', '')
        base = q.rsplit('::', 1)[-1]
        if obj == SUM and base in ('setLocalErrorCode', 'setRemoteErrorCode'):
            self.count('results')
            v = en.rv(st, f, args[0], n['a'][0])
            st.store[('G', base)] = v
            return [(st, ZERO)]
        return combine(en, st, f, fid, nid, n, args)

    def final(self, st, which, dflt):
        return st.store.get(('G', which), dflt)


class SenderReport(Report):
    """the report of a sender"""
    over = (THREADS, FAILED, DIRS)

    def conds(self, st):
        return [cmp_('==', MERGED, ZERO), eq(EFF, st.read(me(TR + 'totalFileSize_'))), cmp_('==', ('sym', ('size', DIRS)), ZERO)]

    def part(self, st):
        return tuple(None if x == TOP else st.truth(x) for x in self.conds(st)) + tuple(sorted(map(str, st.rs)))

    def hints(self, st):
        return [x for x in self.conds(st) if x != TOP]

    def elem_start(self, en, st, f, nid, m):
        if m == THREADS:
            self.add(st, ('todo',))
        elif m == FAILED:
            self.add(st, ('failed',))
        else:
            self.add(st, ('baddir',))

    def elem_end(self, en, st, f, nid, m):
        if m == THREADS and self.has(st, ('todo',)):
            self.add(st, ('skipped',))

    def loop_end(self, en, st, f, nid, m):
        if m == THREADS and not self.has(st, ('skipped',)):
            self.add(st, ('summed',))
        if m == THREADS:
            self.drop(st, lambda x: x == ('skipped',))
        self.add(st, ('seen', m))

    def other_call(self, en, st, f, fid, nid, n, obj, args):
        q = n.get('f', '')
        base = q.rsplit('::', 1)[-1]
        if q == TS + 'operator+=' and obj == SUM:
            self.count('merges')
            if not self.is_elem(st, args[0], THREADS):
                self.report('sender: foreign statistics', 'the summary contains statistics that are not those of a thread', st, f.loc(nid))
            elif not self.has(st, ('todo',)) or self.has(st, ('summed',)):
                self.report('sender: merged twice', 'the statistics of a thread are added to the summary more than once', st, f.loc(nid))
            self.drop(st, lambda x: x == ('todo',))
            return [(st, to_addr(obj))]
        if q.startswith(TS) and obj == SUM and base in ('getErrorCode', 'getLocalErrorCode', 'getRemoteErrorCode', 'getEffectiveDataBytes'):
            self.count('asked')
            if not self.has(st, ('summed',)):
                self.report('sender: asked early', 'the summary is judged before the statistics of all threads are in it', st, f.loc(nid))
            return [(st, EFF if base == 'getEffectiveDataBytes' else MERGED)]
        if q.startswith(TS) and base in ('getErrorCode', 'getLocalErrorCode') and obj and obj != SUM:
            if self.is_elem(st, obj, THREADS) or self.is_elem(st, obj, FAILED):
                v = SOME
                thr = self.is_elem(st, obj, THREADS)
                b = st.copy()
                st.assume(cmp_('>', v, ZERO))
                if not thr:
                    return [(st, v)]
                self.count('thread_asked')
                if base == 'getErrorCode':
                    self.add(b, ('oneok',))
                return [(st, v), (b, ZERO)]
        return super().other_call(en, st, f, fid, nid, n, obj, args)

    def on_exit(self, en, st, fn, ret):
        self.count('exits')
        bytes_ok, dirs = true(st, self.conds(st)[1]), self.conds(st)[2]
        for which in ('setLocalErrorCode', 'setRemoteErrorCode'):
            v = self.final(st, which, MERGED)
            if v == TOP:
                self.report('sender: result unknown', 'cannot tell how the reported error code comes about', st, fn.loc())
                continue
            z = st.truth(cmp_('==', v, ZERO))
            if z is not False:
                self.count('reported_ok')
                for bad, key, why in (
                        (not self.has(st, ('summed',)), 'threads left out', 'not all threads are in the summary'),
                        (not bytes_ok, 'bytes missing', 'fewer bytes than discovered may have been sent'),
                        (not true(st, dirs) or self.has(st, ('baddir',)), 'directory failed', 'a directory could not be read'),
                        (not self.has(st, ('seen', FAILED)) and not true(st, cmp_('==', ('sym', ('size', FAILED)), ZERO)) or self.has(st, ('failed',)),
                         'source failed', 'a file could not be sent'),
                        (not true(st, cmp_('==', MERGED, ZERO)) and not self.has(st, ('oneok',)), 'no thread finished',
                         'no thread finished without an error')):
                    if bad:
                        self.report('sender: OK although ' + key, 'success is reported although ' + why, st, fn.loc())
            if z is not True and true(st, cmp_('==', MERGED, ZERO)) and bytes_ok and true(st, dirs) and not self.has(st, ('failed',)) and \
                    not self.has(st, ('baddir',)):
                self.report('sender: failure although all sent', 'an error is reported although nothing failed', st, fn.loc())


class ReceiverReport(Report):
    """the report of a receiver"""
    ERR, SENT, GOT, TOTAL, BYTES = [('sym', x) for x in ('localerr', 'blockssent', 'blocksgot', 'bytessent', 'bytesgot')]
    enc = 0

    def conds(self, st):
        return [cmp_('==', self.ERR, ZERO), cmp_('==', self.ERR, const(self.enc)), cmp_('==', self.SENT, const(-1)), cmp_('==', self.SENT, self.GOT),
                cmp_('==', self.TOTAL, const(-1)), cmp_('==', self.TOTAL, self.BYTES)]

    def part(self, st):
        return tuple(st.truth(x) for x in self.conds(st)) + tuple(sorted(map(str, st.rs)))

    hints = conds

    def other_call(self, en, st, f, fid, nid, n, obj, args):
        q = n.get('f', '')
        base = q.rsplit('::', 1)[-1]
        got = {'getNumBlocksSend': self.SENT, 'getNumBlocks': self.GOT, 'getTotalSenderBytes': self.TOTAL, 'getEffectiveDataBytes': self.BYTES,
               'getLocalErrorCode': self.ERR}.get(base)
        if q.startswith(TS) and obj == SUM:
            if got:
                self.count('asked')
                return [(st, got)]
            if base == 'getErrorCode':
                v = en.fresh(st, fid, nid, 'both')
                b = st.copy()
                st.assume(cmp_('==', self.ERR, ZERO))
                b.assume(cmp_('>', v, ZERO))
                return [(st, ZERO), (b, v)]
            if base == 'setRemoteErrorCode':
                v = en.rv(st, f, args[0], n['a'][0])
                if v == TOP or st.truth(cmp_('!=', v, ZERO)) is not True:
                    self.report('receiver: remote error dropped', 'the error the sender reported may be replaced by OK', st, f.loc(nid))
        return super().other_call(en, st, f, fid, nid, n, obj, args)

    def on_exit(self, en, st, fn, ret):
        self.count('exits')
        v = self.final(st, 'setLocalErrorCode', self.ERR)
        if v == TOP:
            self.report('receiver: result unknown', 'cannot tell how the reported error code comes about', st, fn.loc())
            return
        t = [st.truth(x) for x in self.conds(st)]
        z = st.truth(cmp_('==', v, ZERO))
        if z is not False:
            self.count('reported_ok')
            for bad, key, why in (
                    (t[2] is not False, 'end unknown', 'the sender never said how many blocks it sent'),
                    (t[3] is not True, 'blocks missing', 'the number of blocks received is not the number sent'),
                    (t[4] is not True and t[5] is not True, 'bytes missing', 'the number of bytes received is not the number sent'),
                    (t[0] is not True and t[1] is not False, 'encryption error', 'a connection failed its authentication')):
                if bad:
                    self.report('receiver: OK although ' + key, 'success is reported although ' + why, st, fn.loc())
        if z is not True and t[0] is True and t[2] is False and t[3] is True and (t[4] is True or t[5] is True):
            self.report('receiver: failure although all received', 'an error is reported although nothing failed', st, fn.loc())


OTHER = ('P', ('sym', 'other'))


class Merge(Rule):
    """TransferStats::operator+="""
    lock_havoc = False
    K = 24

    def init(self):
        return frozenset()

    def small(self, k, depth=0):
        return False

    def should_inline(self, k):
        return self.prog.F[k].cls == 'TransferStats' and 'Lock' not in self.prog.F[k].name

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        return combine(en, st, f, fid, nid, n, args)

    def is_event(self, f, nid, n):
        return n.get('f') == BOTH

    def two(self, f):
        s = State()
        return s.read(me(TS + f)), s.read(('F', OTHER, TS + f))

    def conds(self, st):
        out = []
        for f in ('localErrCode_', 'remoteErrCode_'):
            out += [cmp_('==', x, ZERO) for x in self.two(f)]
        for f in ('numBlocksSend_', 'totalSenderBytes_'):
            a, b = self.two(f)
            out += [cmp_('==', a, const(-1)), cmp_('==', b, const(-1)), cmp_('==', a, b)]
        return out

    def part(self, st):
        return tuple(st.truth(x) for x in self.conds(st))

    def hints(self, st):
        return self.conds(st)

    def on_exit(self, en, st, fn, ret):
        self.count('exits')
        for f in COUNTERS:
            a, b = self.two(f)
            v = st.read(me(TS + f))
            self.count('sums')
            if v == TOP or v != ladd(a, b) and not true(st, cmp_('==', v, ladd(a, b))):
                self.report('merge: %s' % f, 'the merged statistics are not the sum of both for %s' % f, st, fn.loc())
        bad = False
        for f in ('numBlocksSend_', 'totalSenderBytes_'):
            a, b = self.two(f)
            v = st.read(me(TS + f))
            na, nb = (st.truth(cmp_('==', x, const(-1))) for x in (a, b))
            same = st.truth(cmp_('==', a, b))
            self.count('totals')
            if na is True:
                if not true(st, eq(v, b)):
                    self.report('merge: %s lost' % f, 'what one thread learnt from the sender (%s) is lost' % f, st, fn.loc())
            elif not true(st, eq(v, a)):
                if not (na is None and true(st, eq(v, b))):
                    self.report('merge: %s changed' % f, 'what a thread learnt from the sender (%s) is changed by a thread that learnt nothing' % f, st, fn.loc())
            if na is not True and nb is not True and same is not True and true(st, cmp_('==', st.read(me(TS + 'localErrCode_')), ZERO)) is not False:
                if st.truth(cmp_('==', st.read(me(TS + 'localErrCode_')), ZERO)) is not False:
                    self.report('merge: %s mismatch' % f, 'threads that learnt different totals (%s) from the sender are not an error' % f, st, fn.loc())
            if not (na is True or nb is True or same is True):
                bad = True
        for f in ('localErrCode_', 'remoteErrCode_'):
            a, b = self.two(f)
            v = st.read(me(TS + f))
            if v == TOP:
                self.report('merge: %s' % f, 'cannot tell the merged error code', st, fn.loc())
                continue
            z = st.truth(cmp_('==', v, ZERO))
            both = [st.truth(cmp_('==', x, ZERO)) for x in (a, b)]
            if z is not False and both != [True, True]:
                self.report('merge: %s dropped' % f, 'the error of a thread does not survive the merge (%s)' % f, st, fn.loc())
            if z is not True and both == [True, True] and not (bad and f == 'localErrCode_'):
                self.report('merge: %s invented' % f, 'an error appears in the merge of two successes (%s)' % f, st, fn.loc())


class Combined(Rule):
    """the error of one side is also the error of both"""
    lock_havoc = False
    K = 8
    two = ()

    def init(self):
        return frozenset()

    def part(self, st):
        return tuple(st.truth(cmp_('==', x, ZERO)) for x in self.two)

    def hints(self, st):
        return [cmp_('==', x, ZERO) for x in self.two]

    def is_event(self, f, nid, n):
        return n.get('f') == BOTH

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        return combine(en, st, f, fid, nid, n, args) or maxof(en, st, f, fid, nid, n, args)

    def on_exit(self, en, st, fn, ret):
        self.count('exits')
        if ret == TOP:
            self.report('%s: unknown' % fn.qn, 'cannot tell the combined error code', st, fn.loc())
            return
        z = st.truth(cmp_('==', ret, ZERO))
        both = list(self.part(st))
        if z is not False and both != [True, True]:
            self.report('%s: error dropped' % fn.qn, 'the combination of an error with OK may be OK', st, fn.loc())
        if z is not True and both == [True, True]:
            self.report('%s: error invented' % fn.qn, 'the combination of two successes is not OK', st, fn.loc())


class Fields(Rule):
    lock_havoc = False
    fields = ()
    end = None

    def init(self):
        return frozenset()

    def is_event(self, f, nid, n):
        return False

    def should_inline(self, k):
        return self.prog.F[k].cls == 'TransferStats' and 'Lock' not in self.prog.F[k].name

    def on_exit(self, en, st, fn, ret):
        self.count('exits')
        vals = {f: st.read(me(f)) for f in self.fields}
        self.end = vals if self.end is None or self.end == vals else {f: TOP for f in vals}


class Handed(Rule):
    """who hands out a report"""
    lock_havoc = False
    K = 12
    started = None

    def init(self):
        return frozenset()

    def should_inline(self, k):
        return self.prog.F[k].cls in ('Sender', 'Receiver') and self.prog.F[k].name not in (
            'getTransferStatus', 'getGlobalTransferStats') and super().should_inline(k)

    def is_event(self, f, nid, n):
        return n.get('f', '') in (TS + 'getErrorCode', TR + 'setErrorCode', 'WdtBase::getTransferStatus')

    def part(self, st):
        s, e = st.store.get(('G', 'status')), st.store.get(('G', 'err'))
        return (None if s is None else st.truth(cmp_('==', s, const(self.idle))), None if e is None else st.truth(cmp_('==', e, ZERO)),
                st.store.get(('G', 'set')))

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        q = n.get('f', '')
        if q == 'WdtBase::getTransferStatus':
            st.store[('G', 'status')] = v = en.fresh(st, fid, nid, 'status')
            self.count('status')
            return [(st, v)]
        if q == TS + 'getErrorCode':
            st.store[('G', 'err')] = v = en.fresh(st, fid, nid, 'err')
            return [(st, v)]
        if q == TR + 'setErrorCode':
            v = en.rv(st, f, args[0], n['a'][0])
            if v == TOP or st.truth(cmp_('!=', v, ZERO)) is not True:
                self.report('%s: error dropped' % f.qn, 'the error code of a report may be replaced by OK', st, f.loc(nid))
            st.store[('G', 'set')] = ONE
            return [(st, ZERO)]
        return None

    def on_exit(self, en, st, fn, ret):
        self.count('exits')
        idle, ok, done = self.part(st)
        if done is None and (idle is not False and ok is not False):
            self.report('%s: success before start' % fn.qn, 'success may be reported for a transfer that was not started', st, fn.loc())


class Api(Rule):
    """the result of the library call is the result of the report"""
    lock_havoc = False
    K = 8

    def init(self):
        return frozenset()

    def should_inline(self, k):
        return self.prog.F[k].cls in ('Wdt',) and super().should_inline(k)

    def is_event(self, f, nid, n):
        return n.get('f', '') in (TS + 'getErrorCode', 'Receiver::finish', 'Sender::transfer', 'Sender::finish', 'Receiver::transferAsync')

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        q = n.get('f', '')
        if q in ('Receiver::finish', 'Sender::transfer', 'Sender::finish'):
            self.count('finished')
            st.store[('G', 'ran')] = ONE
        if q == 'Receiver::transferAsync':
            self.count('finished')
            st.store[('G', 'ran')] = ONE
            st.store[('G', 'err')] = v = en.fresh(st, fid, nid, 'err')
            return [(st, v)]
        if q == TS + 'getErrorCode' and ('G', 'ran') in st.store:
            st.store[('G', 'err')] = v = en.fresh(st, fid, nid, 'err')
            return [(st, v)]
        return None

    def on_exit(self, en, st, fn, ret):
        self.count('exits')
        if ('G', 'ran') in st.store:
            e = st.store.get(('G', 'err'))
            if e is None or ret == TOP or ret != e and not true(st, cmp_('==', ret, e)):
                self.report('%s: result' % fn.qn, 'the call does not return the error code of the transfer', st, fn.loc())
        elif ret == TOP or st.truth(cmp_('!=', ret, ZERO)) is not True:
            self.report('%s: OK without transfer' % fn.qn, 'OK may be returned although no transfer ran', st, fn.loc())


def byte(st, i):
    return st.read(('X', ('P', st.read(me('WdtThread::buf_'))), const(i)))


class SendsDone(Rule):
    """what the sender says about the whole transfer"""
    lock_havoc = False
    K = 8
    PAIR, TOTAL = ('sym', 'pair'), ('sym', 'qsize')

    def init(self):
        return frozenset()

    def should_inline(self, k):
        return self.prog.F[k].cls == 'SenderThread' and super().should_inline(k)

    def is_event(self, f, nid, n):
        return n.get('f', '') in ('DirectorySourceQueue::getNumBlocksAndStatus', 'DirectorySourceQueue::getTotalSize', 'Protocol::encodeDone',
                                  'Protocol::encodeSize') or n.get('f', '').endswith('Socket::write')

    def part(self, st):
        return (st.store.get(('G', 'enc')), st.store.get(('G', 'asked')))

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        q = n.get('f', '')
        if q == 'DirectorySourceQueue::getNumBlocksAndStatus':
            self.count('totals_asked')
            return [(st, self.PAIR)]
        if q == 'DirectorySourceQueue::getTotalSize':
            self.count('totals_asked')
            return [(st, self.TOTAL)]
        if q in ('Protocol::encodeDone', 'Protocol::encodeSize'):
            self.count('totals_encoded')
            vals = [en.rv(st, f, a, x) for a, x in zip(args, n['a'])]
            done = q.endswith('Done')
            if vals[-1] != self.TOTAL:
                self.report('%s: bytes' % f.qn, 'the sender does not announce the size of everything discovered', st, f.loc(nid))
            if done and not (vals[-2] != TOP and vals[-2][0] == 'fld' and vals[-2][1] == self.PAIR and vals[-2][2].endswith('::first')):
                self.report('%s: blocks' % f.qn, 'the sender does not announce the number of blocks discovered', st, f.loc(nid))
            st.store[('G', 'enc')] = ONE
            return [(st, en.fresh(st, fid, nid, 'enc'))]
        if q.endswith('Socket::write'):
            self.count('totals_written')
            if ('G', 'enc') not in st.store:
                self.report('%s: written early' % f.qn, 'the command is written before the totals are in it', st, f.loc(nid))
            if self.done:
                v = byte(st, 1)
                if not (v != TOP and v[0] == 'fld' and v[1] == self.PAIR and v[2].endswith('::second')):
                    self.report('%s: status' % f.qn, 'the sender does not announce whether files or directories failed', st, f.loc(nid))
        return None

    def on_exit(self, en, st, fn, ret):
        self.count('exits')


class StoresDone(Rule):
    """what the sender says is what the receiver judges by"""
    lock_havoc = False
    K = 8
    done = True
    failed = 0
    SETTERS = {TS + 'setNumBlocksSend': 'blocks', TS + 'setTotalSenderBytes': 'bytes', TS + 'setRemoteErrorCode': 'status'}

    def init(self):
        return frozenset()

    def should_inline(self, k):
        return self.prog.F[k].cls == 'ReceiverThread' and super().should_inline(k)

    def is_event(self, f, nid, n):
        return n.get('f', '') in self.SETTERS or n.get('f', '') in ('Protocol::decodeDone', 'Protocol::decodeSize')

    def part(self, st):
        return tuple(st.store.get(('G', x)) for x in ('dec', 'blocks', 'bytes', 'status'))

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        q = n.get('f', '')
        if q in self.SETTERS:
            if obj == ('F', ('P', THIS), 'WdtThread::threadStats_'):
                self.count('totals_stored')
                st.store[('G', self.SETTERS[q])] = en.rv(st, f, args[0], n['a'][0])
            return [(st, ZERO)]
        if q not in ('Protocol::decodeDone', 'Protocol::decodeSize'):
            return None
        self.count('totals_decoded')
        o = args[2 if self.done else 1]
        off = to_loc(o) if o != TOP and o[0] == 'addr' else None
        at = st.read(off) if off else TOP
        buf = args[1 if self.done else 0]
        if at == TOP or at != ladd(self.OFF, const(1 if self.done else 0)) or buf != State().read(me('WdtThread::buf_')):
            self.report('%s: place' % f.qn, 'the totals are not decoded from behind the command', st, f.loc(nid))
        bad = st.copy()
        for a, x in zip(args[-2:] if self.done else args[-1:], ('blocks', 'bytes') if self.done else ('bytes',)):
            if a == TOP or a[0] != 'addr':
                self.report('%s: output' % f.qn, 'cannot tell where a total is decoded to', st, f.loc(nid))
            else:
                st.store[to_loc(a)] = ('sym', ('dec', x))
                bad.store[to_loc(a)] = TOP
        if off:
            for s in (st, bad):
                s.store[off] = en.fresh(s, fid, nid, 'off')
        st.store[('G', 'dec')] = ONE
        return [(st, ONE), (bad, ZERO)]

    def on_exit(self, en, st, fn, ret):
        self.count('exits')
        if ('G', 'dec') not in st.store:
            for x in ('blocks', 'bytes', 'status'):
                if ('G', x) in st.store:
                    self.report('%s: %s invented' % (fn.qn, x), 'a total (%s) is stored although the command was not decoded' % x, st, fn.loc())
            if ret == TOP or st.truth(cmp_('==', ret, const(self.failed))) is not True:
                self.report('%s: undecoded' % fn.qn, 'a command that was not decoded is taken for a valid one', st, fn.loc())
            return
        want = {'bytes': ('sym', ('dec', 'bytes'))}
        if self.done:
            want['blocks'] = ('sym', ('dec', 'blocks'))
            want['status'] = ('elt', State().read(me('WdtThread::buf_')), self.OFF)
        for x, w in want.items():
            v = st.store.get(('G', x))
            if x == 'status' and v and v != TOP and v[0] == 'elt':
                v = ('elt', w[1], v[2]) if v[1] in (w[1], ('cont', w[1])) else v
            if v is None or v != w and not true(st, eq(v, w)):
                self.report('%s: %s lost' % (fn.qn, x), 'what the sender said about the whole transfer (%s) is not what the report is made of' % x, st, fn.loc())


class QueueStatus(Rule):
    """the status of discovery"""
    lock_havoc = False
    K = 8
    LISTS = tuple('DirectorySourceQueue::' + x for x in ('failedSourceStats_', 'failedDirectories_'))

    def init(self):
        return frozenset()

    def conds(self):
        return [cmp_('==', ('sym', ('size', x)), ZERO) for x in self.LISTS]

    def part(self, st):
        return tuple(st.truth(x) for x in self.conds())

    def hints(self, st):
        return self.conds()

    def is_event(self, f, nid, n):
        b = n.get('f', '').rsplit('::', 1)[-1]
        return b in ('empty', 'size', 'make_pair') or b.startswith(('make_pair', 'pair')) or n['k'] in ('construct', 'ctor')

    def look(self, en, st, f, args, nid, n):
        if len(args) == 2:
            self.count('totals_given')
            v, s = [en.rv(st, f, a, x) for a, x in zip(args, n['a'])]
            num, s = [st.read(to_loc(x)) if x != TOP and x[0] == 'addr' else x for x in (v, s)]
            if num != State().read(me('DirectorySourceQueue::numBlocks_')):
                self.report('queue: blocks', 'the number of blocks given to the receiver is not the number discovered', st, f.loc(nid))
            both = self.part(st)
            z = None if s == TOP else st.truth(cmp_('==', s, ZERO))
            if z is not False and both != (True, True):
                self.report('queue: error dropped', 'the receiver may be told that all is well although a file or directory failed', st, f.loc(nid))
            if z is not True and both == (True, True):
                self.report('queue: error invented', 'the receiver may be told of an error although no file or directory failed', st, f.loc(nid))

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        b = n.get('f', '').rsplit('::', 1)[-1]
        if b in ('empty', 'size') and obj and obj[0] == 'F' and obj[2] in self.LISTS:
            v = ('sym', ('size', obj[2]))
            self.count('lists_asked')
            return [(st, cmp_('==', v, ZERO) if b == 'empty' else v)]
        if b.startswith('make_pair'):
            self.look(en, st, f, args, nid, n)
        return None

    def on_ctor(self, en, st, f, fid, nid, n, args):
        if 'pair<' in str(n.get('f', '')) and len(args) == 2:
            self.look(en, st, f, args, nid, n)
        return None

    def on_exit(self, en, st, fn, ret):
        self.count('exits')


def run(P, c):
    en = P.enum('ErrorCode')
    reports = {tuple(f.params[i]['t'] for i in range(len(f.params))): f for f in P.fns('TransferReport::TransferReport')}

    def go(r, f, setup=None, floor=('exits',)):
        c.explore(r, f.key, setup=setup)
        for x in floor:
            c.need(r.stats.get(x) or r.viol, 'no %s in %s' % (x, f.qn))
        c.oblige('%s: %s' % (f.qn, type(r).__doc__ or ''), not r.viol)
        c.absorb(r, '')
        for k, v in r.stats.items():
            c.count(k, v)

    snd = [f for t, f in reports.items() if sum('vector<' in x for x in t) == 4]
    rcv = [f for t, f in reports.items() if len(t) == 1]
    c.need(len(snd) == 1 and len(rcv) == 1, 'constructors of the reports not found')

    def s1(st, f, fid):
        for x in (MERGED, EFF):
            st.store[('G', x)] = x
        st.store[('G', 'someerr')] = SOME
        st.assume(cmp_('>', SOME, ZERO))
        st.assume(cmp_('>=', MERGED, ZERO))
        s = ('sym', ('size', DIRS))
        st.store[('G', ('size', DIRS))] = s
        st.assume(cmp_('>=', s, ZERO))
    go(SenderReport(P), snd[0], s1, ('exits', 'merges', 'asked', 'results', 'reported_ok'))
    r = ReceiverReport(P)
    r.enc = en['ENCRYPTION_ERROR']

    def s2(st, f, fid):
        for x in (r.ERR, r.SENT, r.GOT, r.TOTAL, r.BYTES):
            st.store[('G', x)] = x
        st.assume(cmp_('>=', r.ERR, ZERO))
    go(r, rcv[0], s2, ('exits', 'asked', 'results', 'reported_ok'))

    r = Merge(P)
    f = P.fn('TransferStats::operator+=')

    def split(st, pair, z, other):
        for v, x in zip(pair, z):
            if x:
                st.assume(cmp_('==', v, const(other)))
            else:
                st.assume(cmp_('>' if other == 0 else '!=', v, const(other)))
    cases = [(x, a, b) for x in ('localErrCode_', 'remoteErrCode_', 'numBlocksSend_', 'totalSenderBytes_') for a in (0, 1) for b in (0, 1)]
    case = [None]

    def s3(st, f, fid):
        st.store[('L', fid, f.params[0]['d'])] = ('addr', OTHER)
        for x in ('localErrCode_', 'remoteErrCode_'):
            for v in r.two(x):
                st.store[('G', v)] = v
                st.assume(cmp_('>=', v, ZERO))
        for x in ('numBlocksSend_', 'totalSenderBytes_'):
            for v in r.two(x):
                st.store[('G', v)] = v
        split(st, r.two(case[0][0]), case[0][1:], 0 if 'Err' in case[0][0] else -1)
    for case[0] in cases:
        c.explore(r, f.key, setup=s3)
    go(r, f, s3, ('exits', 'sums', 'totals'))

    # combination of two error codes
    f = P.fn('getMoreInterestingError')
    r = Combined(P)

    z = [(0, 0)]

    def s4(st, f, fid):
        r.two = [('sym', 'err1'), ('sym', 'err2')]
        for p, v in zip(f.params, r.two):
            st.store[('L', fid, p['d'])] = v
            st.store[('G', v)] = v
            st.assume(cmp_('>=', v, ZERO))
        split(st, r.two, z[0], 0)
    for z[0] in ((0, 0), (0, 1), (1, 0), (1, 1)):
        c.explore(r, f.key, setup=s4)
    go(r, f, s4)
    r = Combined(P)
    f = P.fn('TransferStats::getErrorCode')

    def s5(st, f, fid):
        r.two = [State().read(me(TS + x)) for x in ('localErrCode_', 'remoteErrCode_')]
        for v in r.two:
            st.store[('G', v)] = v
            st.assume(cmp_('>=', v, ZERO))
        split(st, r.two, z[0], 0)
    for z[0] in ((0, 0), (0, 1), (1, 0), (1, 1)):
        c.explore(r, f.key, setup=s5)
    go(r, f, s5)

    # a new session starts with the values of new statistics
    nums = [x for x in P.records['TransferStats']['fields'] if x['t'] == 'long' or x['t'].endswith('ErrorCode')]
    c.floor('statistics', len(nums), 11)
    ends = []
    for f in [P.fn('TransferStats::reset')] + [x for x in P.fns('TransferStats::TransferStats') if [y['t'] for y in x.params] == ['bool']]:
        r = Fields(P)
        r.fields = [x['q'] for x in nums]
        go(r, f)
        ends.append(r.end)
    c.need(len(ends) == 2 and ends[1], 'constructor of TransferStats not found')
    for x in nums:
        a, b = ends[0][x['q']], ends[1][x['q']]
        c.need(b != TOP and b[0] == 'c', 'initial value of %s not readable' % x['q'])
        c.check(a == b, 'reset: %s' % x['n'], 'TransferStats::reset leaves %s of the previous session in place' % x['n'], P.fn('TransferStats::reset').loc())

    # handing out the report
    S = P.enum('WdtBase::TransferStatus')
    for q in ('Sender::getTransferReport', 'Receiver::getTransferReport'):
        r = Handed(P)
        r.idle = S['NOT_STARTED']
        go(r, P.fn(q), None, ('exits', 'status'))
    for q in ('Wdt::wdtSend', 'Wdt::wdtReceiveFinish', 'Wdt::wdtReceiveStart'):
        go(Api(P), P.fn(q), None, ('exits', 'finished'))
    # the report of a sender gets the lists of failures
    f = P.fn('Sender::finish')
    want = {'DirectorySourceQueue::getFailedSourceStats': 1, 'DirectorySourceQueue::getFailedDirectories': 3}
    for nid, n in f.nodes.items():
        if n['k'] in ('call', 'new') and n.get('f', '').rsplit('::', 1)[-1].startswith('make_unique') and len(n.get('a', [])) == 9:
            c.count('reports_made')
            for q, i in want.items():
                a = f.nodes.get(n['a'][i], {})
                while a.get('k') in ('load', 'cast', 'paren') and a.get('e'):
                    a = f.nodes.get(a['e'], {})
                c.check(a.get('f') == q, 'report: %s' % q, 'the report of a sender is made without %s' % q, f.loc(nid))
    c.need(c.counts.get('reports_made'), 'Sender::finish makes no report')

    # totals and status on the wire
    for q in ('SenderThread::sendSizeCmd', 'SenderThread::sendDoneCmd'):
        r = SendsDone(P)
        r.done = 'Done' in q
        go(r, P.fn(q), None, ('exits', 'totals_asked', 'totals_encoded', 'totals_written'))
    for q in ('ReceiverThread::processSizeCmd', 'ReceiverThread::processDoneCmd'):
        r = StoresDone(P)
        r.done = 'Done' in q
        r.OFF = State().read(me('ReceiverThread::off_'))
        r.failed = P.enum('ReceiverState')['FINISH_WITH_ERROR']
        go(r, P.fn(q), None, ('exits', 'totals_decoded', 'totals_stored'))
    r = QueueStatus(P)

    def s6(st, f, fid):
        for x in r.LISTS:
            v = ('sym', ('size', x))
            st.store[('G', v)] = v
            st.assume(cmp_('>=', v, ZERO))
    go(r, P.fn('DirectorySourceQueue::getNumBlocksAndStatus'), s6, ('exits', 'totals_given', 'lists_asked'))

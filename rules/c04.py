"""C04: lengths and counts that come from the peer never exceed the memory they are used with."""
from wdtsa.sock import *
from rules.c01 import gval

EXPLAIN = ('Every state function of both threads is explored with the peer free to send any bytes: each loaded or decoded '
           'number is unconstrained, each read may be short. Every socket transfer, decode, encode, checksum, copy and '
           'file write that touches a thread, heap or stack buffer must be provably inside that buffer, using only the '
           'comparisons the code made. The receiver\'s buffer positions are an invariant checked at every state change, '
           'and its socket reads must append to the bytes already received.')
RULE = 'capacity dataflow with linear bounds over all state functions; position invariant at state changes'
ASSUME = ['Protocol encode/decode functions keep their offset between its start and the given maximum (C03)',
          'WDT_CHECK ends the process']

BUF = ('sym', 'buf')
CAP = ('sym', 'cap')
END = ('G', 'end')
USED = ('G', 'used')
CMD = ('PROCESS_FILE_CMD', 'PROCESS_SETTINGS_CMD', 'PROCESS_DONE_CMD', 'PROCESS_SIZE_CMD')
FRESH = ('SEND_LOCAL_CHECKPOINT', 'SEND_FILE_CHUNKS')
UNSIGNED = ('decodeInt64C', 'decodeInt32C', 'decodeInt64FixedLength', 'decodeInt32FixedLength')
T = ('P', THIS)


def tf(n):
    return ('F', T, n)


OFFL, OLDL, NUM = tf('ReceiverThread::off_'), tf('ReceiverThread::oldOffset_'), tf('ReceiverThread::numRead_')


def sure(st, x):
    """provable, with known values put in for their names"""
    t = st.truth(x)
    if t is not None or x[0] != 'cmp':
        return t is True
    ts, c = lin(x[2])
    d = const(c)
    for a, k in ts:
        lo, hi, _ = vbounds(a, st.facts)
        d = ladd(d, const(lo) if lo == hi else a, k)
    return st.truth(cmp_(x[1], d, ZERO)) is True


class Bounds(SockRule):
    K = 16
    receiver = False
    track = False
    opaque = frozenset({'SenderThread::sendOneByteSource'})
    follow = frozenset({'readAtLeast', 'readAtMost', 'SenderThread::readAndVerifySpuriousCheckpoint',
                        'SenderThread::readNextReceiverCmd'})

    def fail(self, st, f, n, kind):
        st.note('%s:%d %s fails' % (f.file, n.get('l', 0), kind))

    def set_err(self, st, who, v):
        pass

    def part(self, st):
        if not self.receiver:
            return ()
        m = st.read(NUM)
        return m == ZERO, m != TOP and st.truth(cmp_('>=', m, const(self.minbuf))), self.used(st), st.store.get(('G', 'whole')), self.failed(st)

    def on_branch(self, en, st, f, b, cond, took):
        a, d = st.store.get(('G', 'avail'), TOP), st.store.get(('G', 'need'), TOP)
        if TOP not in (a, d) and ('G', 'whole') not in st.store:
            t = st.truth(cmp_('>=', a, d))
            if t is not None:
                st.store[('G', 'whole')] = ONE if t else ZERO

    def used(self, st):
        """all received bytes were consumed"""
        return st.store.get(USED) == ONE

    def consumed(self, st, x):
        e = st.store.get(END, TOP)
        if TOP not in (e, x) and sure(st, cmp_('==', x, e)):
            st.store[USED] = ONE

    def element(self, st, f, nid, what, loc):
        if loc and loc[0] == 'X':
            w = self.where(st, ('addr', loc))
            if w:
                self.inside(st, f, nid, what, ('addr', loc), ONE)

    def on_read(self, en, st, f, nid, n, loc):
        self.element(st, f, nid, 'byte read', loc)

    def on_write(self, en, st, f, nid, n, loc, v):
        self.element(st, f, nid, 'byte store', loc)
        if self.track and loc == OFFL:
            self.consumed(st, st.read(OFFL))
            self.consumed(st, v)

    def limits(self, st):
        if not self.receiver:
            return CAP, ZERO
        d, w = st.store.get(('G', 'need'), TOP), st.store.get(('G', 'written'), TOP)
        return CAP, ZERO, const(self.minbuf), TOP if TOP in (d, w) else ladd(d, w, -1)

    def hints(self, st):
        if not self.receiver:
            return []
        o, old, m = st.read(OFFL), st.read(OLDL), st.read(NUM)
        e = st.store.get(END, TOP)
        r = [cmp_('<=', ZERO, e), cmp_('<=', e, CAP)] if e != TOP else [ZERO, ZERO]
        if TOP in (o, old, m):
            return r + [ZERO] * 8 + self.counts(st, o, e)
        a, d = st.store.get(('G', 'avail'), TOP), st.store.get(('G', 'need'), TOP)
        r += [ZERO, ZERO] if TOP in (a, d) else [cmp_('>=', a, d), cmp_('<', a, d)]
        eq = [cmp_('==', e, ladd(o, m)), cmp_('==', e, ladd(old, m))] if e != TOP else [ZERO, ZERO]
        return r + [cmp_('<=', ladd(old, m), CAP), cmp_('<=', ladd(o, m), CAP), cmp_('<=', o, ladd(old, m)), cmp_('<=', old, o)] + eq + self.counts(st, o, e)

    def pending(self, k):
        f = self.prog.F[k]
        c = self.cands.get(k)
        if c is None:
            c = self.cands[k] = [('L', p['d']) for p in f.params if p['t'] in ('long', 'const long')] + [('E', 'ret')] + \
                [('E', i) for i, n in f.calls() if n.get('t') == 'long' and len(n['a']) >= 3]
        return c

    def failed(self, st):
        """a read that failed is pending"""
        fid = st.stack[-1][1] if st.stack else None
        for w, x in self.pending(st.stack[-1][0]) if st.stack else ():
            v = st.env.get((fid, x)) if w == 'E' else None
            if v is not None and v != TOP and v[0] in ARITH and st.truth(cmp_('<', v, ZERO)) is True:
                return True
        return False

    def counts(self, st, o, e):
        """sizes pending in this function that reach from the position to the end of the received bytes"""
        fid = st.stack[-1][1]
        r = []
        for w, x in self.pending(st.stack[-1][0]):
            v = st.store.get(('L', fid, x)) if w == 'L' else st.env.get((fid, x)) or st.store.get(('E', (fid, x)))
            r.append(ZERO if v is None or TOP in (v, o, e) or v[0] not in ARITH else cmp_('==', e, ladd(o, v)))
        return r

    def is_event(self, f, nid, n):
        return super().is_event(f, nid, n) or n.get('f', '').startswith(('Protocol::encode', 'FileWriter::write', 'folly::crc32c')) or \
            n.get('f', '') in ('memcpy', 'memmove', 'ByteSource::read')

    def should_inline(self, k):
        f = self.prog.F[k]
        if f.cls in ('ThreadTransferHistory', 'TransferHistoryController', 'DirectorySourceQueue', 'TransferLogManager', 'FileWriter',
                     'FileCreator', 'TransferStats', 'WdtBase', 'Receiver', 'Sender', 'Throttler', 'Funnel', 'Protocol', 'Barrier'):
            return False
        return super().should_inline(k)

    # -- capacities
    def where(self, st, v):
        """-> (base, offset) of a pointer value"""
        if v == TOP:
            return None
        off = ZERO
        while v[0] == 'addr' and v[1][0] == 'X':
            off = ladd(off, v[1][2]) if off != TOP and v[1][2] != TOP else TOP
            v = to_addr(v[1][1])
        if off == TOP:
            return None
        ts, c = lin(v)
        for a, k in ts:
            if k == 1 and self.cap(st, a) is not None:
                return a, ladd(ladd(v, a, -1), off)
        return None

    def cap(self, st, a):
        if a == BUF:
            return CAP
        if a[0] == 'addr':
            l = a[1]
            r = st.store.get(('G', ('cap', a)))
            if r is not None:
                return r
            if l[0] == 'L':
                return self.arrays.get(l[2])
            return None
        return st.store.get(('G', ('cap', a)))

    arrays = {}
    cands = {}

    def inside(self, st, f, nid, what, p, n):
        self.count('accesses')
        self.sites.add((f.qn, nid))
        w = self.where(st, p)
        if w is None:
            self.report('%s: %s unknown' % (f.qn, what), 'the buffer of a %s cannot be told' % what, st, f.loc(nid))
            return None
        if n == TOP or w[1] == TOP:
            self.report('%s: %s length' % (f.qn, what), 'the length of a %s is not bounded by its buffer' % what, st, f.loc(nid))
            return w
        end = ladd(w[1], n)
        if not sure(st, cmp_('<=', ZERO, w[1])) or not sure(st, cmp_('<=', ZERO, n)):
            self.report('%s: %s negative' % (f.qn, what), 'the start or length of a %s may be negative' % what, st, f.loc(nid))
        if not sure(st, cmp_('<=', end, self.cap(st, w[0]))):
            self.report('%s: %s length' % (f.qn, what), 'a %s may run past the end of its buffer' % what, st, f.loc(nid))
        return w

    def on_node(self, en, st, f, fid, nid, n):
        if n['k'] == 'decl':
            for d in n['ds']:
                if 'vla' in d:
                    v = en.val(st, f, fid, d['vla'])
                    self.count('arrays')
                    if v == TOP or not sure(st, cmp_('<=', ZERO, v)):
                        self.report('%s: array %s' % (f.qn, d['n']), 'an array is made with a length that may be negative', st, f.loc(nid))
                    st.store[('G', ('cap', ('addr', ('L', fid, d['d']))))] = v
                elif d.get('t') in ('char', 'unsigned char'):
                    self.arrays[d['d']] = ONE
                elif d.get('t', '').endswith(']') and d.get('t', '').startswith(('char[', 'unsigned char[')):
                    try:
                        self.arrays[d['d']] = const(int(d['t'][d['t'].index('[') + 1:-1]))
                    except ValueError:
                        pass

    def copied(self, en, st, f, nid, dst, n):
        """bytes placed at the front of the receiver's buffer"""

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        q = n.get('f', '')
        if q == 'new':
            x = n.get('n')
            if x:
                v = en.val(st, f, fid, x)
                self.count('arrays')
                if v == TOP or not sure(st, cmp_('<=', ZERO, v)):
                    self.report('%s: new[]' % f.qn, 'memory is asked for with a length that may be negative', st, f.loc(nid))
                s = st.env[(fid, nid)]
                st.store[('G', ('cap', s))] = v
            return None
        cls, _, base = q.rpartition('::')
        if cls == 'Protocol' and base.startswith(('decode', 'encode')):
            r = self.codec(en, st, f, fid, nid, n, args, base)
            if r:
                return r
        if cls in SOCK and base in ('read', 'write', 'readWithTimeout'):
            w = self.inside(st, f, nid, base, args[0], args[1])
            if self.track and w and w[0] == BUF:
                e = st.store.get(END)
                if base == 'write':
                    pass
                elif e is not None and (e == TOP or not sure(st, cmp_('==', w[1], e))) and not self.used(st):
                    self.report('%s: gap' % f.qn, 'bytes are read into the buffer at a place that does not follow the bytes already there', st, f.loc(nid))
        if q == 'ByteSource::read' and args and args[0] != TOP:
            en.havoc_args(st, f, fid, nid, n, args)
            v, z = en.fresh(st, fid, nid, 'data'), en.fresh(st, fid, nid, 'size')
            st.assume(cmp_('<=', ZERO, z))
            st.write(to_loc(args[0]), z)
            st.store[('G', ('cap', v))] = z
            self.count('source_reads')
            return [(st, v)]                                # a null result is refused by the caller or has no length
        if q in ('memcpy', 'memmove'):
            a = self.inside(st, f, nid, q + ' to', args[0], args[2])
            self.inside(st, f, nid, q + ' from', args[1], args[2])
            if self.track and a and a[0] == BUF:
                st.store[END] = ladd(a[1], args[2])
        if q == 'folly::crc32c':
            self.inside(st, f, nid, 'checksum', args[0], args[1])
        if q == 'FileWriter::write':
            w = self.inside(st, f, nid, 'file write', args[0], args[1])
            if w and w[0] == BUF and TOP not in (w[1], args[1]):
                self.consumed(st, ladd(w[1], args[1]))
            bad = st.copy()
            v = en.fresh(bad, fid, nid, 'code')
            bad.assume(cmp_('!=', v, ZERO))
            w = st.store.get(('G', 'written'), ZERO)
            st.store[('G', 'written')] = ladd(w, args[1]) if TOP not in (w, args[1]) else TOP
            return [(st, ZERO), (bad, v)]
        if q == 'FileWriter::getTotalWritten':
            return [(st, st.store.get(('G', 'written'), ZERO))]
        if q in ('folly::loadUnaligned', 'folly::storeUnaligned'):
            sz = {'short': 2, 'int': 4, 'long': 8}.get(n.get('t', '') if q.endswith('load') else '', 4)
            sz = {'short': 2, 'int': 4, 'long': 8}.get(n.get('t', ''), 4)
            self.inside(st, f, nid, base, args[0], const(sz))
        if q == 'Protocol::getMaxLocalCheckpointLength':
            v = en.fresh(st, fid, nid, 'cplen')
            st.assume(cmp_('<=', ONE, v))
            st.assume(cmp_('<=', v, const(self.cplen)))
            return [(st, v)]
        return super().on_call(en, st, f, fid, nid, n, obj, args)

    cplen = 60

    def counted(self, g):
        """fields of its result that a decode function reads as unsigned"""
        out = set()
        for _, n in g.calls():
            if n.get('f') in UNSIGNED:
                for a in n['a']:
                    x = g.nodes.get(a, {})
                    if x.get('k') == 'm':
                        out.add(x['f'])
        self.count('unsigned_fields', 0)
        return sorted(out)

    def on_ctor(self, en, st, f, fid, nid, n, args):
        if n.get('rec') == 'FileWriter':
            st.store[('G', 'written')] = ZERO
        return None

    def codec(self, en, st, f, fid, nid, n, args, base):
        g = self.prog.F.get(n.get('fk')) if n.get('fk') else None
        if g is None:
            return None
        i = next((i for i, p in enumerate(g.params) if p['t'].replace(' ', '') == 'char*'), None)
        if i is None or len(args) < i + 3:
            return None
        self.count('codec_calls')
        buf, off, mx = args[i:i + 3]
        loc = to_loc(off) if off != TOP else None
        old = st.read(loc) if loc else TOP
        w = self.inside(st, f, nid, base, buf, mx)
        if old == TOP or mx == TOP or not sure(st, cmp_('<=', ZERO, old)) or not sure(st, cmp_('<=', old, mx)):
            self.report('%s: %s offset' % (f.qn, base), '%s may start outside of the range it is given' % base, st, f.loc(nid))
        en.havoc_args(st, f, fid, nid, n, args)
        outs = []
        num = base == 'encodeFileChunksInfoList'
        for v in ((None,) if num else (ONE, ZERO)):
            s = st.copy()
            o = en.fresh(s, fid, nid, 'off')
            if old != TOP and mx != TOP:
                s.assume(cmp_('<=', old, o))
                s.assume(cmp_('<=', o, mx))
                s.assume(cmp_('<=', ZERO, o))
            if loc:
                s.write(loc, o)
            if v == ONE:
                for x in range(len(args)):
                    if args[x] == TOP or args[x][0] != 'addr':
                        continue
                    for fld in self.counted(g):
                        y = en.fresh(s, fid, nid, fld)
                        s.assume(cmp_('<=', ZERO, y))
                        if fld == 'BlockDetails::dataSize':
                            s.store[('G', 'need')] = y
                            s.store[('G', 'avail')] = ladd(mx, o, -1) if mx != TOP else TOP
                        s.write(('F', to_loc(args[x]), fld), y)
            if v is None:
                v = en.fresh(s, fid, nid, 'count')
                s.assume(cmp_('<=', ZERO, v))
            if v == ZERO and base.startswith('decode'):
                self.add(s, 'undecoded', base)
            outs.append((s, v))
        return outs

    def moved(self, en, st, f, nid, n, base, args, v):
        if self.track and base != 'write':
            w = self.where(st, args[0])
            if w and w[0] == BUF:
                st.store[END] = ladd(w[1], v) if v != TOP else TOP
                st.store[USED] = ZERO

    def on_exit(self, en, st, fn, ret):
        self.count('exits')
        if not self.receiver:
            return
        names = [k for k, v in self.enum.items() if ret != TOP and st.truth(cmp_('==', ret, const(v))) is not False]
        o, old, m = st.read(OFFL), st.read(OLDL), st.read(NUM)

        def need(what, *conds):
            for x in conds:
                if not sure(st, x):
                    self.report('%s: %s' % (fn.qn, what), 'the receiver goes on to %s with buffer positions that are not inside the buffer' % what, st, fn.loc())
                    return
        if TOP in (o, old, m):
            if set(names) & (set(CMD + FRESH) | {'READ_NEXT_CMD'}):
                self.report('%s: positions' % fn.qn, 'the buffer positions are lost', st, fn.loc())
            return
        if set(names) & set(FRESH):
            need('an exchange', cmp_('==', o, ZERO), cmp_('==', m, ZERO))
        if set(names) & set(CMD):
            need('a command', cmp_('<=', ZERO, old), cmp_('==', o, ladd(old, ONE)), cmp_('<=', ladd(old, m), CAP), cmp_('>=', m, const(self.minbuf)))
        if 'READ_NEXT_CMD' in names:
            need('READ_NEXT_CMD', cmp_('<=', ZERO, o), cmp_('<=', ZERO, m), cmp_('<=', ladd(o, m), CAP))
            e = st.store.get(END)
            self.count('next')
            if self.track and e is not None and (e == TOP or not sure(st, cmp_('==', e, ladd(o, m)))) and \
                    not sure(st, cmp_('==', m, ZERO)):
                self.report('%s: unread bytes' % fn.qn, 'the positions handed on do not end where the received bytes end', st, fn.loc())


def run(P, c):
    mn = gval(P, 'Protocol::kMinBufLength')
    mh = gval(P, 'Protocol::kMaxHeader')
    todo = []
    for cls, en_ in (('SenderThread', 'SenderState'), ('ReceiverThread', 'ReceiverState')):
        fs = sorted({f.key: f for f in P.F.values() if f.cls == cls and f.ret.rsplit('::', 1)[-1] == en_ and not f.params}.values(),
                    key=lambda f: f.qn)
        c.need(len(fs) >= 13, 'only %d state functions of %s found' % (len(fs), cls))
        todo += [(cls, en_, f) for f in fs]
    todo.sort(key=lambda x: x[2].qn != 'ReceiverThread::processFileCmd')

    def one(c, item):
        cls, en_, f = item
        E = P.enum(en_)
        table = P.table(cls + '::stateMap_')
        r = Bounds(P)
        r.arrays = {}
        r.enum = E
        r.receiver = r.track = cls == 'ReceiverThread'
        r.minbuf = mn
        r.thresholds = (mn,)

        def setup(st, fn, fid):
            st.store[tf('WdtThread::buf_')] = BUF
            st.store[tf('WdtThread::bufSize_')] = CAP
            st.assume(cmp_('<=', const(mh), CAP))
            st.assume(cmp_('<', ZERO, BUF))
            if not r.receiver:
                return
            o, old, m = ('sym', 'off'), ('sym', 'old'), ('sym', 'num')
            name = [k for k, v in E.items() if v < len(table) and table[v] == f.qn]
            if not name:
                name = ['']                             # a helper of a state
            if name[0] in CMD:
                o = ladd(old, ONE)
                st.assume(cmp_('>=', m, const(mn)))
                st.store[END] = ladd(old, m)
            elif name[0] in FRESH:
                o = m = ZERO
                st.store[END] = ZERO
            elif name[0] == 'READ_NEXT_CMD':
                st.store[END] = ladd(o, m)
                st.assume(cmp_('<=', ladd(o, m), CAP))
            st.store[OFFL], st.store[OLDL], st.store[NUM] = o, old, m
            st.assume(cmp_('<=', ZERO, old))
            st.assume(cmp_('<=', ZERO, o))
            st.assume(cmp_('<=', ZERO, m))
            st.assume(cmp_('<=', ladd(old, m), CAP))
        c.explore(r, f.key, setup=setup)
        if f.qn.endswith('::sendBlocks'):
            r.opaque = frozenset()
            c.explore(r, P.fn('SenderThread::sendOneByteSource').key, setup=setup)
        c.need(r.stats.get('exits') or r.viol, 'no exit of %s reached' % f.qn)
        c.oblige('%s stays inside its buffers' % f.qn, not r.viol)
        c.absorb(r)
        for k, v in r.stats.items():
            c.count(k, v)
    c.parallel(one, todo)
    c.floor('state_functions', len(todo), 26)

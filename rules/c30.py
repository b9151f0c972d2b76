"""C30: the blocks sent for a file are exactly what the receiver lacks."""
from wdtsa.foreach import *

EXPLAIN = ('The splitting of a file into blocks is explored with symbolic sizes: within every missing range each block must start '
           'where the previous one ended, be no longer than the block size and make progress, and the last one must end at the '
           'end of the range; the range is the whole file unless the receiver has a usable part of it. The computation of the '
           'missing ranges, the reset of the queue when the receiver tells what it has, and the reading of a block are '
           'explored the same way: what is handed out starts at the wanted byte and stays inside the block.')
RULE = 'affine (linear-equality) invariants over the block loop, with a ghost variable for what is covered; case split on what the receiver has'
ASSUME = ['the list of received ranges of a file is sorted and disjoint', 'a file, and sums of file sizes, fit 63 bits',
          'the buffer a block is read into holds at least one disk block']

CLS = 'DirectorySourceQueue::'


def minmax(st, fid, nid, n, args):
    """std::min and std::max as a case split"""
    q = n.get('f', '')
    if q not in ('std::min', 'std::max') or len(args) != 2:
        return None
    a, b = [st.read(x[1]) if x != TOP and x[0] == 'addr' else x for x in args]
    if TOP in (a, b):
        return None
    if q == 'std::max':
        a, b = b, a
    out = []
    s = st.copy()
    if s.assume(cmp_('<=', a, b)) is not False:
        out.append((s, a if q == 'std::min' else b))
    if st.assume(cmp_('<', b, a)) is not False:
        out.append((st, b if q == 'std::min' else a))
    for x, v in out:
        x.write(('T', fid, nid), v)
    return [(x, ('addr', ('T', fid, nid))) for x, v in out] or None
MD = 'SourceMetaData::'
META = ('P', ('sym', 'meta'))
MB = 1048576


def sym(x):
    return ('sym', x)


def fld(c, x):
    return ('F', c, x)


def forget(st, *names):
    """drops what is known of symbols that are about to stand for something new"""
    gone = {sym(x) for x in names}
    st.facts = {k: v for k, v in st.facts.items() if not any(a in gone for a, _ in k)}


def place(st, v):
    """where the object lives that is passed by reference"""
    if v == TOP:
        return None
    if v[0] == 'addr':
        return v[1]
    return next((l for l, x in st.store.items() if x == v and l[0] == 'T'), None)


def turn(r, st):
    """successive elements get different symbols"""
    if r.has(st, ('odd',)):
        r.drop(st, lambda x: x == ('odd',))
        return '0'
    r.add(st, ('odd',))
    return '1'


class Blocks(ForEach):
    over = ('ranges',)
    affine = True
    K = 10
    case = None          # none, larger, part

    def init(self):
        return frozenset()

    def part(self, st):
        left = st.store.get(('G', 'left'))
        # whether what is left fits a block is kept apart
        fits = None if left is None else st.truth(cmp_('<', left, const(self.mb * MB) if self.mb else sym('fsize')))
        return tuple(sorted(map(str, st.rs))) + (fits,)

    def is_event(self, f, nid, n):
        q = n.get('f', '')
        return n['k'] in ('call', 'ctor') and ('FileByteSource' in q or n.get('rec') == 'FileByteSource' or q == 'FileChunksInfo::getRemainingChunks' or
                                               q.startswith('std::make_unique') and 'FileByteSource' in n.get('t', ''))

    def should_inline(self, k):
        f = self.prog.F[k]
        return f.cls not in ('FileByteSource', 'FileChunksInfo') and f.name != 'smartNotify' and super().should_inline(k)

    def container(self, st, obj):
        if obj and obj == st.store.get(('G', 'ranges')):
            return 'ranges'
        return None

    # ranges -------------------------------------------------------------
    def elem_start(self, en, st, f, nid, m):
        e = ('P', sym(('elem', m)))
        g = st.store.get(('G', 'one'))
        if g:
            a, b = g
            if self.has(st, ('first',)):
                self.add(st, ('beyond',))
            self.add(st, ('first',))
        else:
            i = turn(self, st)
            forget(st, 'start' + i, 'len' + i)
            a, n = sym('start' + i), sym('len' + i)
            b = ladd(a, n)
            st.store[('G', 'start')] = a
            st.store[('G', 'end')] = n
            st.assume(cmp_('>=', a, ZERO))
            st.assume(cmp_('>', n, ZERO))
            st.assume(cmp_('<=', b, sym('fsize')))
        st.store[fld(e, 'Interval::start_')] = a
        st.store[fld(e, 'Interval::end_')] = b
        st.store[('G', 'pos')] = a
        st.store[('G', 'left')] = ladd(b, a, -1)
        st.store[('G', 'total')] = ladd(st.store[('G', 'total')], ladd(b, a, -1))
        self.drop(st, lambda x: x[0] == 'some')

    def elem_end(self, en, st, f, nid, m):
        if self.has(st, ('beyond',)):
            return
        if not self.has(st, ('some',)):
            self.report('no block', 'no block is queued for a missing range', st, f.loc(nid))
        if st.truth(cmp_('==', st.store[('G', 'left')], ZERO)) is not True:
            self.report('end', 'the blocks of a missing range may not end where the range ends', st, f.loc(nid))

    def loop_end(self, en, st, f, nid, m):
        self.drop(st, lambda x: x[0] in ('some',))
        for k in ('pos', 'left', 'start', 'end'):
            st.store.pop(('G', k), None)
        self.add(st, ('split',))

    def other_call(self, en, st, f, fid, nid, n, obj, args):
        q = n.get('f', '')
        b = q.rsplit('::', 1)[-1]
        r = minmax(st, fid, nid, n, args)
        if r:
            return r
        if q == 'FileChunksInfo::getRemainingChunks':
            self.count('remaining')
            if st.truth(cmp_('==', args[0], sym('fsize'))) is not True:
                self.report('missing ranges', 'the missing ranges are computed for another file size', st, f.loc(nid))
            if self.case != 'part':
                self.report('missing ranges', 'only part of a file is sent that the receiver does not have', st, f.loc(nid))
            return [(st, sym('remaining'))]
        if q == 'FileChunksInfo::getSeqId':
            return [(st, sym('pseq'))]
        if q == 'FileChunksInfo::getFileSize':
            return [(st, sym('psize'))]
        if q == 'FileChunksInfo::getTotalChunkSize':
            return [(st, sym('ptotal'))]
        if b == 'smartNotify':
            return [(st, TOP)]
        if n.get('repo'):
            return None
        if obj and obj[0] == 'F' and obj[2] == CLS + 'previouslyTransferredChunks_':
            if b in ('find', 'count', 'contains', 'at', 'operator[]'):
                k = args[0]
                ok = k != TOP and (k == ('addr', fld(META, MD + 'relPath')) or k[0] == 'fld' and k[2] == MD + 'relPath')
                if not ok:
                    self.report('lookup', 'what the receiver has is looked up under another name', st, f.loc(nid))
                self.count('lookups')
                there = self.case != 'none'
                return [(st, sym('hit' if there else 'miss') if b == 'find' else ('addr', ('P', sym('prev'))) if b in ('at', 'operator[]')
                         else ONE if there else ZERO)]
            if b in ('end', 'cend'):
                return [(st, sym('miss'))]
            if b == 'empty':
                return [(st, ZERO if self.case != 'none' else en.fresh(st, fid, nid, 'empty'))]
        if b in ('operator==', 'operator!='):
            vs = []
            for v in ([('addr', obj)] if obj else []) + list(args):
                while v != TOP and v[0] == 'addr':
                    v = st.read(v[1])
                vs.append(v)
            if len(vs) == 2 and all(v in (sym('hit'), sym('miss')) for v in vs):
                return [(st, ONE if (vs[0] == vs[1]) == (b == 'operator==') else ZERO)]
        if b in ('operator->', 'operator*') and obj and st.read(obj) == sym('hit'):
            return [(st, ('addr', ('P', sym('pair'))))]
        if 'Interval' in q and q.startswith('std::vector<') and obj is not None:
            if b in ('emplace_back', 'push_back'):
                a = list(args)
                if len(a) == 1:
                    l = place(st, a[0])
                    a = [st.read(fld(l, 'Interval::start_')), st.read(fld(l, 'Interval::end_'))] if l else [TOP, TOP]
                a = [st.read(y[1]) if y != TOP and y[0] == 'addr' else y for y in a]
                if st.store.get(('G', 'one')) or self.has(st, ('part',)):
                    self.report('ranges', 'a range is sent in addition to the missing ones', st, f.loc(nid))
                if st.truth(cmp_('==', a[0], ZERO)) is not True or st.truth(cmp_('==', a[1], sym('fsize'))) is not True:
                    self.report('whole', 'the range sent of a file is not the whole file', st, f.loc(nid))
                    a = [ZERO, sym('fsize')]
                if self.case == 'part':
                    self.report('whole part', 'parts are sent again that the receiver has', st, f.loc(nid))
                st.store[('G', 'one')] = (a[0], a[1])
                st.store[('G', 'ranges')] = obj
                size = sym(('size', 'ranges'))
                st.store[('G', ('size', 'ranges'))] = size
                st.assume(cmp_('==', size, ONE))
                return [(st, TOP)]
            if b == 'operator=' and args and (args[0] == sym('remaining') or args[0] != TOP and args[0][0] == 'addr' and st.read(args[0][1]) == sym('remaining')):
                self.add(st, ('part',))
                st.store[('G', 'ranges')] = obj
                return [(st, TOP)]
        if q.startswith('std::make_unique') and 'FileByteSource' in n.get('t', ''):
            return self.block(en, st, f, fid, nid, args)
        if b in ('push', 'emplace') and obj and obj[0] == 'F' and obj[2] == CLS + 'sourceQueue_':
            if not self.has(st, ('made',)):
                self.report('pushed', 'something else than a new block is queued', st, f.loc(nid))
            self.drop(st, lambda x: x[0] == 'made')
            return [(st, TOP)]
        return None

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        # the constructed vector: `auto v = x.getRemainingChunks()`
        if n['k'] == 'call' and 'Interval' in n.get('f', '') and n.get('f', '').startswith('std::vector<') and obj is not None \
                and st.read(obj) == sym('remaining'):
            st.store[('G', 'ranges')] = obj
            self.add(st, ('part',))
        return super().on_call(en, st, f, fid, nid, n, obj, args)

    def on_ctor(self, en, st, f, fid, nid, n, args):
        if n.get('rec') == 'FileByteSource' and len(args) == 3:
            return self.block(en, st, f, fid, nid, args)
        return None

    def on_write(self, en, st, f, nid, n, loc, v):
        pass

    def block(self, en, st, f, fid, nid, args):
        self.count('blocks')
        w = f.loc(nid)
        if self.has(st, ('made',)):
            self.report('lost', 'a block is made but not queued', st, w)
        args = [st.read(a[1]) if i and a != TOP and a[0] == 'addr' else a for i, a in enumerate(args)]
        m = args[0]
        if m != TOP and m[0] == 'addr' and m[1] != META:
            m = st.read(m[1])
        if m not in (to_addr(META), sym('meta')):
            self.report('file', 'a block is made for another file', st, w)
        if self.phase(st, 'ranges') != 'elem':
            self.report('block', 'a block is made outside the missing ranges', st, w)
            return [(st, TOP)]
        if self.has(st, ('beyond',)):
            self.add(st, ('made',))
            return [(st, TOP)]
        size, off = args[1], args[2]
        pos, left = st.store[('G', 'pos')], st.store[('G', 'left')]
        if TOP in (size, off):
            self.report('unknown', 'the range of a block is not determined', st, w)
            return [(st, TOP)]
        if st.truth(cmp_('==', off, pos)) is not True:
            self.report('offset', 'a block may not start where the previous one ended', st, w)
        if st.truth(cmp_('>=', size, ZERO)) is not True:
            self.report('size', 'a block may have a negative size', st, w)
        if st.truth(cmp_('>', size, ZERO)) is not True:
            x = st.copy()
            if x.assume(cmp_('<=', size, ZERO)) is not False and x.truth(cmp_('<=', left, ZERO)) is not True and \
                    not (self.mb == 0 and x.truth(cmp_('<=', sym('fsize'), ZERO)) is True):
                self.report('progress', 'an empty block may be made although bytes are missing', st, w)
        if st.truth(cmp_('<=', size, left)) is not True:
            self.report('size', 'a block may be longer than what is left of its range', st, w)
        if self.mb and st.truth(cmp_('<=', size, const(self.mb * MB))) is not True:
            self.report('block size', 'a block may be longer than the block size', st, w)
        st.store[('G', 'pos')] = ladd(pos, size)
        st.store[('G', 'left')] = ladd(left, size, -1)
        st.store[('G', 'count')] = ladd(st.store[('G', 'count')], ONE)
        self.add(st, ('some',))
        self.add(st, ('made',))
        return [(st, sym('block'))]

    def on_exit(self, en, st, fn, ret):
        if self.has(st, ('beyond',)):
            return
        self.count('exits')
        w = fn.loc()
        rd = lambda x: st.read(fld(META, MD + x))
        th = lambda x: st.read(('F', ('P', THIS), CLS + x))
        if self.has(st, ('made',)):
            self.report('lost', 'a block is made but not queued', st, w)
        if not self.has(st, ('split',)):
            if not (self.has(st, ('part',)) and st.truth(cmp_('==', sym(('size', 'ranges')), ZERO)) is True):
                self.report('skipped', 'nothing is queued although the receiver does not have the whole file', st, w)
            return
        self.count('split')
        en_ = self.prog.enum('FileAllocationStatus')
        want = {'none': ('NOT_EXISTS',), 'larger': ('EXISTS_TOO_LARGE',), 'smaller': ('EXISTS_TOO_SMALL',), 'same': ('EXISTS_CORRECT_SIZE',)}
        k = self.what
        if rd('allocationStatus') not in [const(en_[x]) for x in want[k]]:
            self.report('status', 'the state of the file at the receiver is not told correctly (%s)' % k, st, w)
        seq = rd('seqId')
        if k in ('none', 'larger'):
            if seq != const(7) or th('nextSeqId_') != const(8):
                self.report('sequence id', 'a file that is sent as new does not get a new number', st, w)
        elif seq != sym('pseq') or th('nextSeqId_') != const(7):
            self.report('sequence id', 'a file of which the receiver has a part does not keep its number', st, w)
        prev = rd('prevSeqId')
        if k == 'larger' and prev != sym('pseq') or k != 'larger' and prev != ZERO:
            self.report('previous id', 'the previous number of the file is not told correctly (%s)' % k, st, w)
        for x, g in (('totalFileSize_', 'total'), ('numBlocks_', 'count')):
            v = th(x)
            if v == TOP or st.truth(cmp_('==', v, st.store[('G', g)])) is not True:
                self.report(x, 'the queue does not count the %s it holds' % {'total': 'bytes', 'count': 'blocks'}[g], st, w)
        if th('numEntries_') != const(4):
            self.report('entries', 'the file is not counted once', st, w)
        v = th('previouslySentBytes_')
        if v != (sym('ptotal') if self.case == 'part' else ZERO):
            self.report('previous bytes', 'the bytes the receiver has are not counted', st, w)


class Missing(ForEach):
    """the ranges of a file that are missing: the complement of the received ones"""
    over = ('FileChunksInfo::chunks_',)
    affine = True
    K = 10

    def part(self, st):
        return tuple(sorted(map(str, st.rs)))

    def elem_start(self, en, st, f, nid, m):
        e = ('P', sym(('elem', m)))
        i = turn(self, st)
        a, b = sym('s' + i), sym('e' + i)
        pos = st.store[('G', 'pos')]
        forget(st, 's' + i, 'e' + i)
        st.store[('G', 's')] = a
        st.store[('G', 'e')] = b
        st.assume(cmp_('>=', a, pos))
        st.assume(cmp_('<', a, b))
        st.store[fld(e, 'Interval::start_')] = a
        st.store[fld(e, 'Interval::end_')] = b

    def elem_end(self, en, st, f, nid, m):
        pos = st.store[('G', 'pos')]
        if st.truth(cmp_('==', pos, st.store[('G', 's')])) is not True:
            self.report('gap', 'a missing range before a received one is left out', st, f.loc(nid))
        st.store[('G', 'pos')] = st.store.pop(('G', 'e'))
        st.store.pop(('G', 's'))

    def is_event(self, f, nid, n):
        return False

    def other_call(self, en, st, f, fid, nid, n, obj, args):
        q = n.get('f', '')
        b = q.rsplit('::', 1)[-1]
        if 'Interval' in q and q.startswith('std::vector<') and b in ('emplace_back', 'push_back'):
            self.count('ranges')
            a = list(args)
            if len(a) == 1:
                l = place(st, a[0])
                a = [st.read(fld(l, 'Interval::start_')), st.read(fld(l, 'Interval::end_'))] if l else [TOP, TOP]
            a = [st.read(y[1]) if y != TOP and y[0] == 'addr' else y for y in a]
            pos = st.store[('G', 'pos')]
            if TOP in a:
                self.report('unknown', 'the bounds of a missing range are not determined', st, f.loc(nid))
                return [(st, TOP)]
            if st.truth(cmp_('==', a[0], pos)) is not True:
                self.report('start', 'a missing range does not start where the received one before it ends', st, f.loc(nid))
            if st.truth(cmp_('<', a[0], a[1])) is not True:
                self.report('empty', 'an empty range may count as missing', st, f.loc(nid))
            want = st.store[('G', 's')] if self.phase(st, self.over[0]) == 'elem' else sym('fsize')
            if st.truth(cmp_('==', a[1], want)) is not True:
                self.report('end', 'a missing range does not end where the next received one starts or the file ends', st, f.loc(nid))
            st.store[('G', 'pos')] = want
            return [(st, TOP)]
        return None

    def on_branch(self, en, st, f, b, cond, took):
        if self.phase(st, self.over[0]) == 'elem':
            pos = st.store[('G', 'pos')]
            if pos != st.store[('G', 's')] and st.truth(cmp_('>=', pos, st.store[('G', 's')])) is True:
                st.store[('G', 'pos')] = st.store[('G', 's')]              # nothing missing before this range
        return super().on_branch(en, st, f, b, cond, took)

    def on_exit(self, en, st, fn, ret):
        self.count('exits')
        if self.phase(st, self.over[0]) != 'end':
            self.report('ends', 'received ranges are left out of account', st, fn.loc())
        if st.truth(cmp_('>=', st.store[('G', 'pos')], sym('fsize'))) is not True:
            self.report('tail', 'the missing range at the end of the file is left out', st, fn.loc())


class Reset(ForEach):
    """the queue is rebuilt when the receiver tells what it has"""
    over = ('got', CLS + 'sharedFileData_')
    K = 10
    opaque = frozenset({CLS + 'createIntoQueueInternal', CLS + 'enqueueFilesToBeDeleted'})

    def part(self, st):
        return tuple(sorted(map(str, st.rs)))

    def is_event(self, f, nid, n):
        return n['k'] == 'call' and n.get('f') in (CLS + 'createIntoQueueInternal',) or CLS + 'sourceQueue_' in str(f.nodes.get(n.get('o'), {}).get('f'))

    def container(self, st, obj):
        if obj and obj == self.param:
            return 'got'
        return super().container(st, obj)

    def elem_start(self, en, st, f, nid, m):
        if m == 'got':
            self.drop(st, lambda x: x == ('kept',))
            v = st.read(('F', ('P', THIS), CLS + 'nextSeqId_'))
            st.store[('G', 'before')] = v
        else:
            self.drop(st, lambda x: x == ('made',))

    def elem_end(self, en, st, f, nid, m):
        if m == 'got':
            v = st.read(('F', ('P', THIS), CLS + 'nextSeqId_'))
            s = sym('pseq')
            if v == TOP or st.truth(cmp_('>', v, s)) is not True:
                self.report('number', 'a number used by the receiver for one of its files may be given to another file', st, f.loc(nid))
            b = st.store.get(('G', 'before'), TOP)
            if TOP in (v, b) or st.truth(cmp_('>=', v, b)) is not True:
                self.report('number', 'the next number of a file may become smaller', st, f.loc(nid))
            if not self.has(st, ('kept',)):
                self.report('kept', 'what the receiver has of a file is not kept', st, f.loc(nid))
            st.store.pop(('G', 'pseq'), None)
        elif not self.has(st, ('made',)):
            self.report('rebuilt', 'a discovered file is not put on the rebuilt queue', st, f.loc(nid))

    def loop_end(self, en, st, f, nid, m):
        self.add(st, ('over', m))

    def other_call(self, en, st, f, fid, nid, n, obj, args):
        q = n.get('f', '')
        b = q.rsplit('::', 1)[-1]
        r = minmax(st, fid, nid, n, args)
        if r:
            return r
        if q == 'FileChunksInfo::getSeqId':
            st.store[('G', 'pseq')] = sym('pseq')
            return [(st, sym('pseq'))]
        if b in ('insert', 'emplace', 'operator[]', 'insert_or_assign', 'try_emplace') and obj and obj[0] == 'F' and obj[2] == CLS + 'previouslyTransferredChunks_':
            self.add(st, ('kept',))
            self.count('kept')
            return None
        if obj and obj[0] == 'F' and obj[2] == CLS + 'sourceQueue_':
            if b == 'empty':
                a = st.copy()
                self.add(a, ('cleared',))
                return [(st, ZERO), (a, ONE)]
            if b in ('operator=', 'swap'):
                self.add(st, ('cleared',))
        if q == CLS + 'createIntoQueueInternal':
            self.count('rebuilt')
            if not self.has(st, ('cleared',)):
                self.report('cleared', 'blocks of before stay on the queue', st, f.loc(nid))
            for x in ('totalFileSize_', 'numEntries_', 'numBlocks_'):
                if st.read(('F', ('P', THIS), CLS + x)) != ZERO and not self.has(st, ('counted',)):
                    self.report('counts', 'the queue is rebuilt without starting to count anew', st, f.loc(nid))
            if not self.has(st, ('over', 'got')):
                self.report('early', 'the queue is rebuilt before all of what the receiver has is known', st, f.loc(nid))
            if self.phase(st, CLS + 'sharedFileData_') != 'elem' or self.has(st, ('made',)):
                self.report('twice', 'a file is put on the queue twice', st, f.loc(nid))
            v = args[0]
            if v == TOP or not (self.is_elem(st, v, CLS + 'sharedFileData_') or v == ('cont', sym(('elem', CLS + 'sharedFileData_')))):
                self.report('other', 'what is put on the rebuilt queue is not a discovered file', st, f.loc(nid))
            for x in ('totalFileSize_', 'numEntries_', 'numBlocks_'):
                st.write(('F', ('P', THIS), CLS + x), en.fresh(st, fid, nid, x))
            self.add(st, ('made',))
            self.add(st, ('counted',))
            return [(st, TOP)]
        if q == CLS + 'enqueueFilesToBeDeleted':
            self.add(st, ('deleted',))
            if not self.has(st, ('over', 'got')) or not self.has(st, ('cleared',)):
                self.report('deletions', 'the files to be deleted are put on the queue too early', st, f.loc(nid))
            return [(st, TOP)]
        return None

    def on_exit(self, en, st, fn, ret):
        self.count('exits')
        if not self.has(st, ('over', 'got')) or not self.has(st, ('over', CLS + 'sharedFileData_')):
            self.report('incomplete', 'the queue is not rebuilt from all files', st, fn.loc())
        if not self.has(st, ('cleared',)):
            self.report('cleared', 'blocks of before stay on the queue', st, fn.loc())
        if not self.has(st, ('deleted',)):
            self.report('deletions', 'the files to be deleted are forgotten', st, fn.loc())


FS = 'FileByteSource::'
BLOCK = 4096


class Read(Rule):
    """what is read of a block"""
    affine = True
    K = 12
    lock_havoc = False

    def init(self):
        return ()

    def is_event(self, f, nid, n):
        return n['k'] == 'call' and n.get('f') in ('pread', 'pread64', 'read')

    def room(self, st, a):
        """what is left of the buffer after a part of a disk block is not nothing"""
        if a != TOP and a[0] in ('sym', 'lin') and ('G', 'bufsize') in st.store and \
                st.truth(cmp_('<', ladd(sym('bufsize'), a, -1), const(BLOCK))) is True:
            st.assume(cmp_('>', a, ZERO))

    def on_write(self, en, st, f, nid, n, loc, v):
        self.room(st, v)

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        q = n.get('f', '')
        if q == 'std::min':
            for a in args:
                self.room(st, st.read(a[1]) if a != TOP and a[0] == 'addr' else a)
        r = minmax(st, fid, nid, n, args)
        if r:
            return r
        if q == FS + 'close' or q.endswith('::setLocalErrorCode'):
            return [(st, TOP)]
        if q == FS + 'hasError':
            return [(st, ZERO)]
        if q.endswith('Buffer::getData'):
            v = sym('buf')
            st.store[('G', 'buf')] = v
            return [(st, v)]
        if q.endswith('Buffer::getSize'):
            v = sym('bufsize')
            st.store[('G', 'bufsize')] = v
            return [(st, v)]
        if q in ('pread', 'pread64', 'read') and n['k'] == 'call' and not n.get('repo'):
            self.count('reads')
            if q == 'read':
                self.report('position', 'a block is read from wherever the file happens to be positioned', st, f.loc(nid))
            fdv = args[0]
            if fdv == TOP or fdv != st.read(('F', ('P', THIS), FS + 'fd_')):
                self.report('file', 'a block is read from another file', st, f.loc(nid))
            if st.read(('F', ('P', THIS), FS + 'alignedReadNeeded_')) == ZERO and \
                    (TOP in args[:3] or st.truth(cmp_('<=', args[2], sym('bufsize'))) is not True):
                self.report('overflow', 'more may be read than the buffer holds', st, f.loc(nid))
            st.store[('G', 'at')] = args[3] if len(args) > 3 else TOP
            st.store[('G', 'to')] = args[1]
            bad, eof = st.copy(), st.copy()
            v = sym('got')
            st.store[('G', 'got')] = v
            st.assume(cmp_('>', v, ZERO))
            st.rs = st.rs + ('read',)
            return [(bad, const(-1)), (eof, ZERO), (st, v)]
        return None

    def on_exit(self, en, st, fn, ret):
        self.count('exits')
        w = fn.loc()
        if ret == TOP or st.truth(cmp_('==', ret, ZERO)) is None and ret != TOP and 'read' not in st.rs:
            self.report('result', 'it is not determined whether data is handed out', st, w)
            return
        size = st.read(('P', sym('sizeptr')))
        if st.truth(cmp_('==', ret, ZERO)) is True:
            return
        if 'read' not in st.rs:
            self.report('nothing', 'data is handed out although none was read', st, w)
            return
        self.count('handed')
        at, to, got = (st.store[('G', k)] for k in ('at', 'to', 'got'))
        off, old, bsize = st.store[('G', 'off')], st.store[('G', 'old')], st.store[('G', 'bsize')]
        if TOP in (at, to, size) or st.truth(cmp_('==', ladd(ladd(at, ret), to, -1), ladd(off, old))) is not True:
            self.report('wrong bytes', 'the data handed out does not start at the next byte of the block', st, w)
            return
        if st.truth(cmp_('<=', size, ladd(bsize, old, -1))) is not True:
            self.report('too much', 'more data is handed out than is left of the block', st, w)
        if st.truth(cmp_('<=', ladd(ladd(ret, to, -1), size), got)) is not True:
            self.report('not read', 'bytes are handed out that were not read', st, w)
        if st.truth(cmp_('>', size, ZERO)) is not True:
            self.report('no progress', 'no or a negative number of bytes may be handed out', st, w)
        v = st.read(('F', ('P', THIS), FS + 'bytesRead_'))
        if v == TOP or st.truth(cmp_('==', v, ladd(old, size))) is not True:
            self.report('position', 'the position in the block does not move on by what was handed out', st, w)


def run(P, c):
    f = P.fn(CLS + 'createIntoQueueInternal')

    def split(x, item):
        what, mb = item
        r = Blocks(P)
        r.what, r.mb = what, mb
        r.case = what if what in ('none', 'larger') else 'part'

        def setup(st, fn, fid):
            st.store[('L', fid, fn.params[0]['d'])] = to_addr(META)
            F = sym('fsize')
            st.store[fld(META, MD + 'size')] = F
            st.store[('G', 'fsize')] = F
            st.assume(cmp_('>=', F, ZERO))
            for k, v in (('blockSizeMbytes_', mb), ('nextSeqId_', 7), ('numEntries_', 3), ('numBlocks_', 10), ('totalFileSize_', 50),
                         ('previouslySentBytes_', 0)):
                st.store[('F', ('P', THIS), CLS + k)] = const(v)
            st.store[('G', 'total')] = const(50)
            st.store[('G', 'count')] = const(10)
            for k in ('psize', 'pseq', 'ptotal'):
                st.store[('G', k)] = sym(k)
            op = {'larger': '>', 'smaller': '<', 'same': '=='}.get(what)
            if op:
                st.assume(cmp_(op, sym('psize'), F))
            st.assume(cmp_('>=', sym('psize'), ZERO))
        x.explore(r, f.key, setup=setup)
        tag = 'blocks (%s at the receiver, block size %s): ' % (what, mb or 'off')
        if r.stats.get('blocks') and not r.stats.get('exits'):
            x.violation(tag + 'ends', 'splitting a file into blocks never ends', f.loc())
            return
        x.absorb(r, tag)
        for k in ('exits', 'blocks', 'split', 'lookups'):
            x.need(r.stats.get(k, 0) >= 1, 'splitting into blocks: %s: nothing to judge' % k)
            x.count(k, r.stats[k])
        for k in ('offset', 'size', 'progress', 'end', 'block size', 'status', 'sequence id', 'previous id', 'totalFileSize_', 'numBlocks_'):
            x.oblige(tag + k, k not in r.viol)
    c.parallel(split, [(w, mb) for w in ('none', 'larger', 'smaller', 'same') for mb in (0, 16)])

    f = P.fn('FileChunksInfo::getRemainingChunks')
    r = Missing(P)

    def setup(st, fn, fid):
        st.store[('L', fid, fn.params[0]['d'])] = sym('fsize')
        st.store[('G', 'fsize')] = sym('fsize')
        st.assume(cmp_('>=', sym('fsize'), ZERO))
        st.store[('G', 'pos')] = ZERO
    c.explore(r, f.key, setup=setup)
    c.absorb(r, 'missing ranges: ')
    for k in ('exits', 'ranges', 'loops'):
        c.need(r.stats.get(k, 0) >= 1, 'missing ranges: %s: nothing to judge' % k)
    c.oblige('missing ranges', not r.viol)

    f = P.fn(CLS + 'setPreviouslyReceivedChunks')
    r = Reset(P)

    def setup(st, fn, fid):
        r.param = ('P', sym('list'))
        st.store[('L', fid, fn.params[0]['d'])] = ('addr', r.param)
    c.explore(r, f.key, setup=setup)
    c.absorb(r, 'rebuilt queue: ')
    for k in ('exits', 'rebuilt', 'kept', 'loops'):
        c.need(r.stats.get(k, 0) >= 1, 'rebuilt queue: %s: nothing to judge' % k)
    c.oblige('rebuilt queue', not r.viol)

    f = P.fn(FS + 'read')
    for al in (ZERO, ONE):
        r = Read(P)

        def setup(st, fn, fid):
            st.store[('L', fid, fn.params[0]['d'])] = ('addr', ('P', sym('sizeptr')))
            for k, fl in (('off', 'offset_'), ('old', 'bytesRead_'), ('bsize', 'size_')):
                v = sym(k)
                st.store[('F', ('P', THIS), FS + fl)] = v
                st.store[('G', k)] = v
                st.assume(cmp_('>=', v, ZERO))
            st.assume(cmp_('<', sym('old'), sym('bsize')))
            st.store[('F', ('P', THIS), FS + 'alignedReadNeeded_')] = al
        c.explore(r, f.key, setup=setup)
        tag = 'reading a block%s: ' % (', aligned' if al == ONE else '')
        c.absorb(r, tag)
        for k in ('exits', 'reads', 'handed'):
            c.need(r.stats.get(k, 0) >= 1, 'reading a block: %s: nothing to judge' % k)
        c.oblige(tag, not r.viol)

"""C19: the transfer log never claims more than what is on disk."""
from wdtsa.foreach import ForEach
from wdtsa.iorule import IoRule
from wdtsa.engine import *
from rules.c01 import gval

EXPLAIN = ('The parser of the log is explored entry by entry with the decoded fields, the maps and the size on disk symbolic: what is taken over must '
           'follow a valid header, be known, lie inside the file on disk and within 64 bits; torn ends are cut off exactly; parse-only mode changes nothing. '
           'The writers are explored with every write and sync forked: a header counts only when it is on disk, entries are queued only after a header and are '
           'all written before the thread ends, and the log is removed, renamed or compacted only after success and in the right order.')
RULE = 'typestate and guard dominance over log entries, system calls and the life of the log'
ASSUME = ['that a block is on disk before its entry is queued is decided by C05, the encoding and bounds of entries by C01 and C03',
          'nothing is queued after shutdownThread was called']
LIMITS = ['recovery after a crash of the machine between two writes is decided only as far as the parser\'s treatment of the end of the log']

LP, TM = 'LogParser::', 'TransferLogManager::'
FILES, SIZES, BAD = LP + 'fileInfoMap_', LP + 'seqIdToSizeMap_', LP + 'invalidSeqIds_'
DISK = ('sym', 'disksize')
DECODE = 'LogEncoderDecoder::decode'


def me(q):
    return ('F', ('P', THIS), q)


def true(st, v):
    """v holds on every run that comes here"""
    if v is None or v == TOP:
        return False
    if st.truth(v) is True or st.truth(cmp_('!=', v, ZERO)) is True:
        return True
    return v[0] in ('fld', 'sym') and st.truth(cmp_('!=', ('bool', v), ZERO)) is True


def false(st, v):
    if v is None or v == TOP:
        return False
    if st.truth(v) is False or st.truth(cmp_('==', v, ZERO)) is True:
        return True
    return v[0] in ('fld', 'sym') and st.truth(cmp_('==', ('bool', v), ZERO)) is True


def flag(st, v):
    return True if true(st, v) else False if false(st, v) else None


def last(q):
    return q.rsplit('::', 1)[-1]


def hit(c):
    return ('sym', ('hit', c))


class Facts(Rule):
    lock_havoc = False
    K = 12

    def init(self):
        return frozenset()

    def has(self, st, *x):
        return x in st.rs

    def add(self, st, *x):
        st.rs = st.rs | {x}

    def drop(self, st, *x):
        st.rs = frozenset(y for y in st.rs if y[:len(x)] != x)


class Entry(Facts):
    """one entry of the log"""
    en = {}
    prealloc = ('G', 'prealloc')
    version = None

    def bools(self, st):
        return [st.read(me(LP + 'headerParsed_')), st.read(me(LP + 'parseOnly_')), st.store.get(('G', 'tree')), st.store.get(self.prealloc)]

    def conds(self, st):
        r = []
        for k, v in (('end', DISK), ('start', ZERO)):
            x = st.store.get(('G', k))
            r.append(None if x in (None, TOP) else cmp_('<=', x, v))
        return r

    def part(self, st):
        return tuple(flag(st, v) for v in self.bools(st)) + tuple(sorted(map(str, st.rs)))

    def small(self, k, depth=0):
        return False

    def should_inline(self, k):
        return self.prog.F[k].cls == 'LogParser' and self.prog.F[k].name != 'getFormattedTimestamp'

    def is_event(self, f, nid, n):
        q = n.get('f', '')
        return n['k'] == 'ctor' and n.get('rec') in ('Interval', 'FileChunksInfo') or q.startswith((DECODE, 'FileChunksInfo::')) or q == 'stat' or \
            last(q) == 'shouldPreallocateFiles' or n['k'] == 'call' and n.get('o') and f.nodes.get(n['o'], {}).get('f') in (FILES, SIZES, BAD)

    def on_read(self, en, st, f, nid, n, loc):
        if loc[0] == 'F' and loc[2] == 'WdtOptions::resume_using_dir_tree':
            st.store[('G', 'tree')] = st.read(loc)
        if loc[0] == 'F' and loc[2].endswith('st_size'):
            st.store[('G', 'st_size')] = st.read(loc)

    def on_node(self, en, st, f, fid, nid, n):
        if n['k'] == 'bin' and n.get('op') in ('+', '-', '*') and f.cls == 'LogParser' and n.get('t') in ('long', 'int64_t', 'unsigned long'):
            a, b = (st.env.get((fid, n[x]), TOP) for x in 'ab')
            if TOP in (a, b) or a[0] == 'c' or b[0] == 'c' or not self.decoded(a) and not self.decoded(b):
                return
            self.count('sums')
            pos = [true(st, cmp_('>=', x, ZERO)) for x in (a, b)]
            if n['op'] == '+':
                ok = all(pos) and (true(st, cmp_('<=', ladd(a, b), DISK)))
            elif n['op'] == '-':
                ok = all(pos) or true(st, cmp_('>=', a, b)) and pos[1]
            else:
                ok = False
            if not ok:
                self.report('%s: overflow' % f.qn, 'numbers from the log are added without knowing that the sum is in range', st, f.loc(nid))

    def decoded(self, v):
        ats = set()
        atoms_of(v, ats)
        return any('out' in str(x) for x in ats) or 'out' in str(v)

    def event(self, st, f, nid, what):
        self.count('taken_over')
        h, p, t, _ = [flag(st, v) for v in self.bools(st)]
        self.add(st, 'did', what)
        for bad, key, why in ((h is not True, 'before header', 'although no valid header came before'),
                              (not self.has(st, 'decoded'), 'not decoded', 'although it was not decoded'),
                              (p is not False, 'parse only', 'although the log is only to be parsed'),
                              (t is not False, 'other mode', 'although the receiver resumes from the directory tree')):
            if bad:
                self.report('%s: %s' % (f.qn, key), 'an entry is taken over ' + why, st, f.loc(nid))

    def arg(self, en, st, f, n, args, i):
        v = args[i]
        return st.read(v[1]) if v != TOP and v[0] == 'addr' and n.get('am', [0] * 9)[i] else v

    def on_ctor(self, en, st, f, fid, nid, n, args):
        if n.get('rec') == 'Interval' and len(args) == 2:
            st.store[('G', 'start')], st.store[('G', 'end')] = (self.arg(en, st, f, n, args, i) for i in (0, 1))
        if n.get('rec') == 'FileChunksInfo' and len(args) == 3:
            st.store[('G', 'onrecord')] = self.arg(en, st, f, n, args, 2)
        return None

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        q = n.get('f', '')
        b = last(q)
        c = obj[2] if obj and obj[0] == 'F' and obj[2] in (FILES, SIZES, BAD) else None
        if q.startswith(DECODE):
            self.count('decodes')
            en.havoc_args(st, f, fid, nid, n, args)
            bad = st.copy()
            self.add(st, 'decoded')
            tgt = [self.prog.F[k] for k in self.prog.targets(n)]
            for p, a in zip(tgt[0].params if tgt else (), args):
                if a != TOP and a[0] == 'addr':
                    st.store[('G', 'd:' + p['n'])] = st.read(a[1])
                    if st.store[('G', 'd:' + p['n'])] == TOP:
                        del st.store[('G', 'd:' + p['n'])]
            self.add(bad, 'undecoded')
            return [(st, ONE), (bad, ZERO)]
        if q == 'stat':
            en.havoc_args(st, f, fid, nid, n, args)
            bad = st.copy()
            self.add(st, 'stat')
            return [(st, ZERO), (bad, const(-1))]
        if b == 'shouldPreallocateFiles':
            v = st.store.get(self.prealloc)
            if v is not None:
                return [(st, v)]
            o = st.copy()
            st.store[self.prealloc], o.store[self.prealloc] = ONE, ZERO
            return [(st, ONE), (o, ZERO)]
        if c:
            if b in ('find', 'count', 'contains'):
                self.count('lookups')
                o = st.copy()
                yes, no = (hit(c), ZERO) if b == 'find' else (ONE, ZERO)
                r = []
                if not self.has(st, 'unknown', c):
                    self.add(st, 'known', c)
                    r.append((st, yes))
                if not self.has(o, 'known', c):
                    self.add(o, 'unknown', c)
                    r.append((o, no))
                return r
            if b in ('end', 'cend'):
                return [(st, ZERO)]
            if b in ('emplace', 'insert', 'insert_or_assign', 'try_emplace', 'operator[]'):
                if b != 'operator[]' or not self.has(st, 'known', c):
                    self.added(en, st, f, nid, c)
                en.havoc_args(st, f, fid, nid, n, args)
                return [(st, en.fresh(st, fid, nid, 'ins'))] if b != 'operator[]' else [(st, ('addr', ('F', ('P', hit(c)), 'std::pair::second')))]
            if b == 'at':
                return [(st, ('addr', ('F', ('P', hit(c)), 'std::pair::second')))]
            if b == 'erase':
                self.event(st, f, nid, ('erase', c))
                return [(st, ZERO)]
            if b == 'clear':
                self.add(st, 'did', ('clear', c))
                return [(st, ZERO)]
        if b in ('operator==', 'operator!=') and 'iterator' in n.get('fk', ''):
            xs = ([st.read(obj)] if obj else []) + [st.read(a[1]) if a != TOP and a[0] == 'addr' else a for a in args]
            if len(xs) == 2 and ZERO in xs and TOP not in xs:
                same = xs[0] == xs[1]
                return [(st, ONE if same == (b == 'operator==') else ZERO)]
        if b in ('operator->', 'operator*') and obj:
            v = st.read(obj)
            if v != TOP and v[0] == 'sym' and isinstance(v[1], tuple) and v[1][0] == 'hit':
                return [(st, ('addr', ('P', v)))]
        if q == 'FileChunksInfo::getFileSize':
            return [(st, DISK)]
        if q == 'FileChunksInfo::addChunk':
            self.chunk(st, f, nid)
            return [(st, ZERO)]
        if b in ('operator==', 'operator!=') and 'basic_string' in n.get('fk', ''):
            xs = ([obj] if obj else []) + [to_loc(a) for a in args if a != TOP]
            if any(x and x[0] == 'F' and x[2] == LP + 'recoveryId_' for x in xs):
                o = st.copy()
                self.add(st, 'recovery')
                y = b == 'operator=='
                return [(st, ONE if y else ZERO), (o, ZERO if y else ONE)]
        if b == 'empty' and 'basic_string' in q:
            o = st.copy()
            self.add(o, 'sender')
            return [(st, ONE), (o, ZERO)]
        return None

    def added(self, en, st, f, nid, c):
        self.event(st, f, nid, ('add', c))
        if c == BAD:
            return
        if c == FILES and not self.has(st, 'unknown', FILES):
            self.report('%s: known file' % f.qn, 'a second creation entry of a sequence id replaces or is mixed with the first', st, f.loc(nid))
        if c == FILES:
            size, want = st.store.get(('G', 'st_size')), st.store.get(('G', 'd:fileSize'))
            if not self.has(st, 'stat') or size in (None, TOP):
                self.report('%s: file missing' % f.qn, 'a file of the log is taken as existing without finding it on disk', st, f.loc(nid))
            elif flag(st, st.store.get(self.prealloc)) is not False and not (want not in (None, TOP) and true(st, cmp_('>=', size, want))):
                self.report('%s: file too small' % f.qn, 'a preallocated file is taken as valid although it is smaller on disk than the log says', st, f.loc(nid))
            if st.store.get(('G', 'onrecord')) != size:
                self.report('%s: size' % f.qn, 'a file of the log is recorded with another size than it has on disk', st, f.loc(nid))

    def chunk(self, st, f, nid):
        self.event(st, f, nid, ('chunk',))
        a, b = st.store.get(('G', 'start')), st.store.get(('G', 'end'))
        off, size = st.store.get(('G', 'd:offset')), st.store.get(('G', 'd:blockSize'))
        if not self.has(st, 'known', FILES):
            self.report('%s: unknown file' % f.qn, 'a block of an unknown file is taken over', st, f.loc(nid))
        if None in (a, b, off, size) or TOP in (a, b, off, size):
            self.report('%s: block' % f.qn, 'cannot tell which bytes a block entry covers', st, f.loc(nid))
            return
        if a != off or b != ladd(off, size):
            self.report('%s: block' % f.qn, 'the bytes taken as written are not the ones of the entry', st, f.loc(nid))
        if not true(st, cmp_('>=', a, ZERO)) or not true(st, cmp_('<=', a, b)) or not true(st, cmp_('<=', b, DISK)):
            self.report('%s: block outside' % f.qn, 'a block entry that does not lie inside the file on disk is taken over', st, f.loc(nid))

    def on_write(self, en, st, f, nid, n, loc, v):
        if loc[0] == 'F' and loc[1] == ('P', hit(SIZES)):
            self.event(st, f, nid, ('resize',))
            old = ('fld', ('sym', ('hit', SIZES)), loc[2])
            new = st.store.get(('G', 'd:fileSize'))
            old = st.read(loc)
            if v == TOP or v != new:
                self.report('%s: resize' % f.qn, 'the new size of a file is not the one of the entry', st, f.loc(nid))
                return
            if not true(st, cmp_('>=', v, old)):
                self.report('%s: shrink' % f.qn, 'a resize entry may shrink a file', st, f.loc(nid))
            if flag(st, st.store.get(self.prealloc)) is not False and not true(st, cmp_('<=', v, DISK)):
                self.report('%s: size on disk' % f.qn, 'a preallocated file may be taken as larger than it is on disk', st, f.loc(nid))
        if loc == me(LP + 'headerParsed_') and v != ZERO:
            self.count('headers')
            ver, cfg = st.store.get(('G', 'd:logVersion'), st.store.get(('G', 'd:version'))), st.store.get(('G', 'd:config'))
            for bad, key, why in (
                    (not self.has(st, 'decoded'), 'not decoded', 'it was not decoded'),
                    (ver in (None, TOP) or not true(st, cmp_('==', ver, const(self.version))), 'version', 'its version may be another'),
                    (not self.has(st, 'sender'), 'sender', 'it may name no sender'),
                    (flag(st, st.read(me(LP + 'parseOnly_'))) is not True and not self.has(st, 'recovery'), 'recovery id', 'its recovery id may be another'),
                    (flag(st, st.read(me(LP + 'parseOnly_'))) is not True and not (
                        cfg not in (None, TOP) and true(st, cmp_('==', cfg, st.read(me(LP + 'config_'))))), 'config', 'its configuration may be another')):
                if bad:
                    self.report('%s: header %s' % (f.qn, key), 'a header is accepted although ' + why, st, f.loc(nid))

    def on_exit(self, en, st, fn, ret):
        self.count('exits')
        if ret == TOP:
            self.report('%s: result' % fn.qn, 'cannot tell how an entry is judged', st, fn.loc())
            return
        ok = st.truth(cmp_('==', ret, const(self.en['OK'])))
        did = [x[1] for x in st.rs if x[0] == 'did']
        h, p = [flag(st, v) for v in self.bools(st)[:2]]
        if ok is not False:
            self.count('accepted')
            if not self.has(st, 'decoded'):
                self.report('%s: undecoded accepted' % fn.qn, 'an entry that was not decoded is not refused', st, fn.loc())
            if fn.name == 'processHeaderEntry':
                if h is not True:
                    self.report('%s: header lost' % fn.qn, 'a header is accepted but not remembered', st, fn.loc())
            elif fn.name == 'processDirectoryInvalidationEntry':
                if p is not True:
                    self.report('%s: directory valid' % fn.qn, 'an entry that invalidates the directory is ignored', st, fn.loc())
            else:
                if p is False and not did and not (fn.name == 'processBlockWriteEntry' and self.has(st, 'known', BAD)):
                    self.report('%s: ignored' % fn.qn, 'an entry is accepted without effect', st, fn.loc())
                if p is False and fn.name == 'processFileInvalidationEntry' and not {('erase', FILES), ('erase', BAD)} <= set(did):
                    self.report('%s: still valid' % fn.qn, 'a file that was invalidated stays valid', st, fn.loc())
                if ('add', FILES) in did and ('add', SIZES) not in did:
                    self.report('%s: no size' % fn.qn, 'a file is taken over without its size', st, fn.loc())
        if fn.name == 'processDirectoryInvalidationEntry' and self.has(st, 'decoded') and p is not True:
            if not true(st, cmp_('==', ret, const(self.en['INCONSISTENT_DIRECTORY']))) or h is not False:
                self.report('%s: directory valid' % fn.qn, 'after a directory invalidation entries are still taken over', st, fn.loc())


class Sys(Facts):
    """forks system calls; 'done' facts: (name, ok)"""
    held = ('G', 'held')

    def sysres(self, en, st, f, fid, nid, n, name, args, full):
        en.havoc_args(st, f, fid, nid, n, args)
        bad = st.copy()
        self.add(st, 'sys', name)
        self.add(bad, 'failed', name)
        return [(st, full), (bad, const(-1))]

    def on_ctor(self, en, st, f, fid, nid, n, args):
        if 'lock' in n.get('rec', '') and 'mutex' in n.get('rec', '') + str(n.get('t', '')) or n.get('rec', '').startswith(('std::lock_guard', 'std::unique_lock')):
            st.store[self.held] = const(1)
            self.locked(st, f, nid)
        return None

    def on_dtor(self, en, st, f, fid, nid, n, loc):
        if n.get('rec', '').startswith(('std::lock_guard', 'std::unique_lock')):
            st.store.pop(self.held, None)

    def locked(self, st, f, nid):
        pass


class Parse(ForEach, Sys):
    """the whole log"""
    en = {}
    over = (FILES, BAD)
    types = {}
    lastread = ('G', 'lastread')
    pend = ('G', 'pend')

    def has(self, st, *x):
        return x in st.rs

    def add(self, st, *x):
        st.rs = st.rs | {x if len(x) > 1 or not isinstance(x[0], tuple) else x[0]}

    def drop(self, st, *x):
        if len(x) == 1 and callable(x[0]):
            st.rs = frozenset(y for y in st.rs if not x[0](y))
        else:
            st.rs = frozenset(y for y in st.rs if y[:len(x)] != x)

    def part(self, st):
        return (tuple(sorted(map(str, st.rs))), flag(st, st.read(me(LP + 'parseOnly_'))), st.store.get(('G', 'status')))

    def should_inline(self, k):
        f = self.prog.F[k]
        return f.cls == 'LogParser' and not f.name.startswith('process') and f.name != 'writeFileInvalidationEntries'

    def on_read(self, en, st, f, nid, n, loc):
        if loc[0] == 'X' and self.has(st, 'body') and loc not in st.store:
            i = loc[2]
            if i == ZERO or i == 0:
                st.store[loc] = ('sym', 'etype')
                st.store[('G', 'etype')] = ('sym', 'etype')
        if loc[0] == 'F' and loc[2].endswith('st_size'):
            st.store[('G', 'st_size')] = st.read(loc)

    def is_event(self, f, nid, n):
        return ForEach.is_event(self, f, nid, n)

    def changing(self, st, f, nid, what):
        if flag(st, st.read(me(LP + 'parseOnly_'))) is not False:
            self.report('%s: parse only' % f.qn, 'the log is %s although it is only to be parsed' % what, st, f.loc(nid))

    def stat(self, st):
        return next((x[1] for x in st.rs if x[0] == 'last'), 'OK')

    def elem_start(self, en, st, f, nid, m):
        self.drop(st, 'taken')

    def elem_end(self, en, st, f, nid, m):
        if m == FILES and not self.has(st, 'taken'):
            self.add(st, 'skipped')

    def loop_end(self, en, st, f, nid, m):
        if m == FILES:
            self.add(st, 'all')

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        q = n.get('f', '')
        b = last(q)
        if q == 'read' and len(args) == 3:
            self.count('reads')
            en.havoc_args(st, f, fid, nid, n, args)
            want = en.rv(st, f, args[2], n['a'][2]) if args[2] != TOP else TOP
            old = st.store.get(self.pend, ZERO)
            out = []
            bad = st.copy()
            self.add(bad, 'readerror')
            out.append((bad, const(-1)))
            end = st.copy()
            self.add(end, 'eof')
            if old != ZERO:
                self.add(end, 'torn')
            out.append((end, ZERO))
            short = st.copy()
            k = ('sym', ('short', f.loc(nid)))
            if want != TOP and short.assume(cmp_('>', k, ZERO)) and short.assume(cmp_('<', k, want)):
                short.store[self.pend] = ladd(old, k)
                self.add(short, 'torn')
                out.append((short, k))
            body = want != const(2)
            if old == ZERO and body or old != ZERO and not body:
                self.report('%s: framing' % f.qn, 'the length and the body of entries are not read in turn', st, f.loc(nid))
            if body:
                st.store[self.pend] = ZERO
                self.add(st, 'body')
                self.drop(st, 'used')
                st.store.pop(('G', 'etype'), None)
                st.store[('G', 'entry')] = args[1]
                st.store[('G', 'len')] = want
            else:
                st.store[self.pend] = const(2)
                self.drop(st, 'body')
            out.append((st, want))
            return out
        if q in ('ftruncate', 'ftruncate64'):
            self.count('truncations')
            self.changing(st, f, nid, 'truncated')
            size, p = st.store.get(('G', 'st_size')), st.store.get(self.pend)
            to = en.rv(st, f, args[1], n['a'][1]) if args[1] != TOP else TOP
            st.store[('G', 'cutto')] = to
            if not self.has(st, 'torn') or None in (size, p) or to == TOP or to != ladd(size, p, -1):
                self.report('%s: cut' % f.qn, 'what is cut off the end of the log is not just the incomplete entry', st, f.loc(nid))
            return self.sysres(en, st, f, fid, nid, n, 'cut', args, ZERO)
        if q in ('lseek', 'lseek64'):
            to = en.rv(st, f, args[1], n['a'][1]) if args[1] != TOP else TOP
            good = to != TOP and (to == st.store.get(('G', 'cutto')) and args[2] == const(0) or to == ZERO and args[2] == const(2))
            return self.sysres(en, st, f, fid, nid, n, 'seek' if good else 'otherseek', args, ('sym', 'pos') if False else ZERO)
        if q == 'fstat':
            return self.sysres(en, st, f, fid, nid, n, 'fstat', args, ZERO)
        if q.startswith(LP + 'process'):
            return self.process(en, st, f, fid, nid, n, args)
        if b == 'writeFileInvalidationEntries':
            self.changing(st, f, nid, 'appended to')
            self.count('invalidations')
            o = st.copy()
            self.add(st, 'invalidated')
            self.add(o, 'failed', 'invalidation')
            if self.stat(st) != 'OK':
                self.report('%s: invalidation' % f.qn, 'entries are appended to a log that is not valid', st, f.loc(nid))
            return [(st, ONE), (o, ZERO)]
        if obj and obj[0] == 'F' and obj[2] in (FILES, SIZES, BAD) and b == 'clear':
            self.drop(st, 'dirty', obj[2])
            if flag(st, st.read(me(LP + 'parseOnly_'))) is not True:
                st.store.pop(('G', ('size', obj[2])), None)
            return [(st, ZERO)]
        if b in ('emplace_back', 'push_back') and 'FileChunksInfo' in q:
            self.count('results')
            if self.stat(st) != 'OK' or self.has(st, 'readerror') or self.has(st, 'bad'):
                self.report('%s: result' % f.qn, 'files are handed over although the log is not valid', st, f.loc(nid))
            if not self.has(st, 'merged'):
                self.report('%s: merged' % f.qn, 'the blocks of a file are handed over without having been merged', st, f.loc(nid))
            if any(x[0] == 'dirty' for x in st.rs):
                self.report('%s: stale' % f.qn, 'files from before the directory became inconsistent are handed over', st, f.loc(nid))
            self.add(st, 'taken')
            self.drop(st, 'merged')
            en.havoc_args(st, f, fid, nid, n, args)
            return [(st, ZERO)]
        if b == 'mergeChunks':
            self.add(st, 'merged')
            return [(st, ZERO)]
        return ForEach.on_call(self, en, st, f, fid, nid, n, obj, args)

    def process(self, en, st, f, fid, nid, n, args):
        self.count('dispatches')
        name = last(n['f'])
        ty = st.store.get(('G', 'etype'))
        want = self.types.get(name)
        if want is None:
            self.report('%s: type' % f.qn, 'cannot tell which entries %s reads' % name, st, f.loc(nid))
        elif ty is None or not true(st, cmp_('==', ty, const(want))):
            self.report('%s: %s' % (f.qn, name), '%s is called for entries of other types' % name, st, f.loc(nid))
        if not self.has(st, 'body') or self.has(st, 'torn') or self.has(st, 'used'):
            self.report('%s: entry' % f.qn, 'an entry is processed that was not read completely, or twice', st, f.loc(nid))
        self.add(st, 'used')
        if self.has(st, 'bad'):
            self.report('%s: after invalid' % f.qn, 'entries are processed after an invalid one', st, f.loc(nid))
        if self.stat(st) != 'OK' and name != 'processHeaderEntry':
            self.report('%s: inconsistent' % f.qn, 'entries are processed although the directory is inconsistent', st, f.loc(nid))
        if any(x[0] == 'dirty' for x in st.rs):
            self.report('%s: stale' % f.qn, 'what was parsed before the directory became inconsistent is kept', st, f.loc(nid))
        ln, ent = st.store.get(('G', 'len')), st.store.get(('G', 'entry'))
        ps = [p['n'] for p in self.prog.fns(n['f'])[0].params]
        vals = dict(zip(ps, args))
        got = vals.get('size')
        if got is not None and got != TOP and got[0] == 'addr':
            got = st.read(got[1])
        if got in (None, TOP) or ln in (None, TOP) or got != ladd(ln, const(-1)):
            self.report('%s: length' % f.qn, 'the length handed to %s is not that of the entry' % name, st, f.loc(nid))
        buf = vals.get('buf')
        if not self.after(st, buf, ent):
            self.report('%s: buffer' % f.qn, 'what is handed to %s is not the body of the entry' % name, st, f.loc(nid))
        self.drop(st, 'last')
        inc, inv = st.copy(), st.copy()
        self.add(inc, 'last', 'INC')
        for m in (FILES, SIZES, BAD):
            self.add(inc, 'dirty', m)
        self.add(inv, 'bad')
        if name == 'processHeaderEntry':
            en.havoc_args(st, f, fid, nid, n, args[-1:])
        return [(st, const(self.en['OK'])), (inc, const(self.en['INCONSISTENT_DIRECTORY'])), (inv, const(self.en['INVALID_LOG']))]

    def after(self, st, buf, ent):
        if buf in (None, TOP) or ent in (None, TOP):
            return False
        if buf == ladd(ent, ONE):
            return True

        def split(v):
            if v[0] == 'addr' and v[1][0] == 'X':
                i = v[1][2]
                return v[1][1], (const(i) if isinstance(i, int) else i)
            return (v[1] if v[0] == 'addr' else v), ZERO
        (a, i), (b, j) = split(buf), split(ent)
        return a == b and i != TOP and j != TOP and i == ladd(j, ONE)

    def on_exit(self, en, st, fn, ret):
        self.count('exits')
        if ret == TOP:
            self.report('%s: result unknown' % fn.qn, 'cannot tell what the log is judged to be', st, fn.loc())
            return
        p = flag(st, st.read(me(LP + 'parseOnly_')))
        E = self.en
        inv = st.truth(cmp_('==', ret, const(E['INVALID_LOG']))) is True
        ok = st.truth(cmp_('==', ret, const(E['OK'])))
        if (self.has(st, 'bad') or self.has(st, 'readerror') or self.has(st, 'failed', 'invalidation')) and not inv:
            self.report('%s: invalid accepted' % fn.qn, 'the log is not called invalid although an entry is, or it cannot be read or completed', st, fn.loc())
        if self.stat(st) != 'OK' and ok is not False:
            self.report('%s: inconsistent accepted' % fn.qn, 'the log counts as valid although the directory is inconsistent', st, fn.loc())
        if self.has(st, 'torn') and p is not True and not inv and not (self.has(st, 'sys', 'cut') and self.has(st, 'sys', 'seek')):
            self.report('%s: torn end' % fn.qn, 'an incomplete entry is left at the end of the log although more is going to be appended', st, fn.loc())
        if ok is not False:
            self.count('valid')
            if not self.has(st, 'eof') and not self.has(st, 'torn'):
                self.report('%s: not all' % fn.qn, 'the log counts as valid although it was not read to its end', st, fn.loc())
            if not self.has(st, 'all') or self.has(st, 'skipped'):
                self.report('%s: files lost' % fn.qn, 'not every file of a valid log is handed over', st, fn.loc())
            some = st.store.get(('G', ('size', BAD)))
            none = some is not None and st.truth(cmp_('==', some, ZERO)) is True
            if p is not True and not none and not self.has(st, 'invalidated'):
                self.report('%s: not invalidated' % fn.qn, 'files found missing or too small are not recorded as invalid', st, fn.loc())


class Invalidate(Parse):
    """every missing file is recorded as invalid"""
    over = (BAD, 'ids')

    def container(self, st, obj):
        if obj and (obj[0] == 'F' and obj[2] == BAD or obj in (st.store.get(('G', 'ids')), ('P', st.store.get(('G', 'ids'))))):
            return BAD
        return None

    def elem_end(self, en, st, f, nid, m):
        if not self.has(st, 'written'):
            self.add(st, 'skipped')
        self.drop(st, 'written')

    def elem_start(self, en, st, f, nid, m):
        self.drop(st, 'written')

    def loop_end(self, en, st, f, nid, m):
        self.add(st, 'all')

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        q = n.get('f', '')
        if last(q) == 'encodeFileInvalidationEntry':
            en.havoc_args(st, f, fid, nid, n, args)
            v = args[2] if len(args) > 2 else TOP
            if not self.is_elem(st, v, BAD):
                self.report('%s: other file' % f.qn, 'another file than the one found missing is recorded as invalid', st, f.loc(nid))
            bad = st.copy()
            k = ('sym', 'enc')
            st.store[('G', 'enc')] = k
            st.assume(cmp_('>', k, ZERO))
            return [(st, k), (bad, const(-1))]
        if q == 'write':
            self.count('writes')
            want = st.store.get(('G', 'enc'))
            got = en.rv(st, f, args[2], n['a'][2]) if args[2] != TOP else TOP
            if want is None or got != want:
                self.report('%s: size' % f.qn, 'what is written is not the encoded entry', st, f.loc(nid))
            a, bad = st, st.copy()
            self.add(a, 'written')
            k = ('sym', 'shortw')
            bad.store[('G', 'shortw')] = k
            bad.assume(cmp_('!=', k, got))
            self.add(bad, 'torn')
            return [(a, got), (bad, k)]
        return ForEach.on_call(self, en, st, f, fid, nid, n, obj, args)

    def on_exit(self, en, st, fn, ret):
        self.count('exits')
        if ret != TOP and st.truth(ret) is False:
            return
        self.count('valid')
        if self.has(st, 'torn') or not self.has(st, 'all') or self.has(st, 'skipped'):
            self.report('%s: incomplete' % fn.qn, 'success is reported although not every entry was written in full', st, fn.loc())


class Writer(Sys):
    """what the manager writes and queues"""
    en = {}
    fn = None
    FD, HEAD, STATUS, QUEUE, DONE, TREE = (TM + x for x in ('fd_', 'headerWritten_', 'resumptionStatus_', 'entries_', 'finished_', 'dirtree'))

    def should_inline(self, k):
        f = self.prog.F[k]
        return f.cls == 'TransferLogManager' and f.name not in ('checkLog', 'parseVerifyAndFix', 'parseAndMatch', 'getFullPath')

    def part(self, st):
        return (tuple(sorted(map(str, st.rs))), st.store.get(me(self.STATUS)), st.store.get(me(self.HEAD)), st.store.get(me(self.FD)))

    def is_event(self, f, nid, n):
        return n.get('f', '') in ('write', 'fsync', 'ftruncate', 'lseek', 'close', 'unlink', 'rename') or 'o' in n and f.nodes.get(n['o'], {}).get('f') in (self.QUEUE,)

    def opened(self, st):
        v = st.read(me(self.FD))
        return v != TOP and st.truth(cmp_('>=', v, ZERO)) is True

    def closed(self, st):
        v = st.read(me(self.FD))
        return v != TOP and st.truth(cmp_('<', v, ZERO)) is True

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        q = n.get('f', '')
        b = last(q)
        if b.startswith('encode') and q.startswith('LogEncoderDecoder::'):
            self.count('encodes')
            bad = st.copy()
            k = ('sym', ('enc', b))
            st.store[('G', 'enc')] = k
            st.store[('G', 'encbuf')] = args[0] if args else TOP
            st.store[('G', 'encargs')] = ZERO
            for i, a in enumerate(args):
                st.store[('G', ('encarg', i))] = a if a == TOP or a[0] != 'addr' else a
            self.drop(st, 'enc')
            self.add(st, 'enc', b)
            self.drop(st, 'sys', 'write')
            self.drop(st, 'sys', 'fsync')
            st.assume(cmp_('>', k, ZERO))
            self.add(bad, 'failed', 'encode')
            return [(st, k), (bad, const(-1))]
        if q == 'write':
            self.count('writes')
            want = st.store.get(('G', 'enc'))
            got = en.rv(st, f, args[2], n['a'][2]) if len(args) > 2 and args[2] != TOP else TOP
            if want is None or got != want or args[1] == TOP or args[1] != st.store.get(('G', 'encbuf')):
                self.report('%s: what is written' % f.qn, 'what is written is not the entry just encoded', st, f.loc(nid))
            bad = st.copy()
            k = ('sym', 'shortw')
            bad.store[('G', 'shortw')] = k
            bad.assume(cmp_('!=', k, got))
            self.add(st, 'sys', 'write')
            self.drop(st, 'sys', 'fsync')
            self.add(bad, 'failed', 'write')
            return [(st, got), (bad, k)]
        if q in ('fsync', 'fdatasync'):
            bad = st.copy()
            self.add(st, 'sys', 'fsync')
            self.add(bad, 'sys', 'fsync')
            return [(st, ZERO), (bad, const(-1))]
        if q == 'close':
            self.count('closes')
            if not self.has(st, 'ended') and not self.has(st, 'nothread') and not self.treemode(st):
                self.report('%s: close' % f.qn, 'the log is closed while its writer thread may still run', st, f.loc(nid))
            self.add(st, 'sys', 'close')
            bad = st.copy()
            return [(st, ZERO), (bad, const(-1))]
        if b == 'joinable':
            o = st.copy()
            self.add(o, 'nothread')
            return [(st, ONE), (o, ZERO)]
        if b == 'join' and 'thread' in q:
            self.count('joins')
            if not self.has(st, 'notified'):
                self.report('%s: join' % f.qn, 'the writer thread is waited for without having been told to finish', st, f.loc(nid))
            self.add(st, 'ended')
            return [(st, ZERO)]
        if b in ('notify_one', 'notify_all'):
            if not self.has(st, 'finished'):
                self.report('%s: notify' % f.qn, 'the writer thread is woken before it is told to finish', st, f.loc(nid))
            self.add(st, 'notified')
            return [(st, ZERO)]
        if b == 'checkLog':
            return [(st, const(self.en['OK']))]
        if obj == me(self.QUEUE):
            if b in ('emplace_back', 'push_back'):
                self.queued(en, st, f, nid, n, args)
                return [(st, ZERO)]
            if b in ('clear', 'pop_back', 'erase', 'resize'):
                self.report('%s: dropped' % f.qn, 'queued entries are dropped', st, f.loc(nid))
        return None

    def treemode(self, st):
        return self.has(st, 'tree')

    def on_read(self, en, st, f, nid, n, loc):
        if loc[0] == 'F' and loc[2] == 'WdtOptions::resume_using_dir_tree':
            st.store[('G', 'tree')] = st.read(loc)

    def on_branch(self, en, st, f, b, cond, took):
        t = st.store.get(('G', 'tree'))
        if t is not None and flag(st, t) is True:
            self.add(st, 'tree')
        return True

    def queued(self, en, st, f, nid, n, args):
        self.count('queued')
        enc = next((x[1] for x in st.rs if x[0] == 'enc'), None)
        if enc is None:
            self.report('%s: queued' % f.qn, 'an entry is queued that was not encoded', st, f.loc(nid))
        if not self.opened(st):
            self.report('%s: closed' % f.qn, 'an entry is queued although the log is not open', st, f.loc(nid))
        if enc != 'encodeFileInvalidationEntry' and flag(st, st.read(me(self.HEAD))) is not True:
            self.report('%s: no header' % f.qn, 'an entry is queued although no header was written in this session', st, f.loc(nid))
        if ('G', 'held') not in st.store:
            self.report('%s: lock' % f.qn, 'an entry is queued without the lock', st, f.loc(nid))
        size = en.rv(st, f, args[1], n['a'][1]) if len(args) > 1 and args[1] != TOP else None
        if len(args) > 1 and (size != st.store.get(('G', 'enc')) or args[0] != st.store.get(('G', 'encbuf'))):
            self.report('%s: other bytes' % f.qn, 'the bytes queued are not the entry that was encoded', st, f.loc(nid))
        self.add(st, 'queued')

    def on_write(self, en, st, f, nid, n, loc, v):
        if loc == me(self.DONE):
            if flag(st, v) is not False and ('G', 'held') not in st.store:
                self.report('%s: finish flag' % f.qn, 'the writer thread is told to finish without the lock', st, f.loc(nid))
            if flag(st, v) is True:
                self.add(st, 'finished')
        if loc in (me(self.HEAD), me(self.STATUS)):
            good = v != TOP and (flag(st, v) is False if loc == me(self.HEAD) else st.truth(cmp_('==', v, const(self.en['OK']))) is False)
            if not good:
                self.count('validated')
                if not (self.has(st, 'enc', 'encodeLogHeader') and self.has(st, 'sys', 'write')) or self.has(st, 'failed', 'write'):
                    self.report('%s: header' % f.qn, 'the log counts as headed although no header was written in full', st, f.loc(nid))
                elif not self.has(st, 'sys', 'fsync'):
                    self.report('%s: sync' % f.qn, 'the log counts as headed although the header was not synced', st, f.loc(nid))
            elif loc == me(self.STATUS):
                self.add(st, 'marked')

    def on_exit(self, en, st, fn, ret):
        self.count('exits')
        name = fn.name
        was = self.has(st, 'wasopen')
        if name in ('writeLogHeader', 'invalidateDirectory') and was:
            if not self.closed(st):
                self.count('valid')
                need = 'encodeLogHeader' if name == 'writeLogHeader' else 'encodeDirectoryInvalidationEntry'
                if not (self.has(st, 'enc', need) and self.has(st, 'sys', 'write') and self.has(st, 'sys', 'fsync')) or self.has(st, 'failed', 'write'):
                    self.report('%s: not written' % fn.qn, 'the log stays open although the entry is not on disk', st, fn.loc())
                if name == 'writeLogHeader' and flag(st, st.read(me(self.HEAD))) is not True:
                    self.report('%s: not noted' % fn.qn, 'a header is written but not noted, so nothing is logged', st, fn.loc())
            if name == 'invalidateDirectory' and st.truth(cmp_('==', st.read(me(self.STATUS)), const(self.en['INCONSISTENT_DIRECTORY']))) is not True:
                self.report('%s: status' % fn.qn, 'the directory does not count as inconsistent afterwards', st, fn.loc())
        if name.startswith('add') and was and (flag(st, st.store.get(('G', 'head0'))) is True or 'Invalidation' in name) and not self.has(st, 'failed', 'encode'):
            self.count('valid')
            if not self.has(st, 'queued'):
                self.report('%s: not queued' % fn.qn, 'an entry is not queued although the log is open and headed', st, fn.loc())
        if name == 'closeLog' and was:
            self.count('valid')
            if not self.has(st, 'sys', 'close') or not self.closed(st):
                self.report('%s: open' % fn.qn, 'the log is not closed', st, fn.loc())
        if name == 'shutdownThread':
            self.count('valid')
            if not self.has(st, 'ended') and not self.has(st, 'nothread'):
                self.report('%s: thread' % fn.qn, 'the writer thread is not waited for', st, fn.loc())


class Drain(Sys):
    """everything queued is written before the writer thread ends"""
    QUEUE, DONE = TM + 'entries_', TM + 'finished_'
    K = 24

    def should_inline(self, k):
        f = self.prog.F[k]
        return f.cls == 'TransferLogManager' and f.name != 'writeEntriesToDiskNoLock'

    def is_event(self, f, nid, n):
        return last(n.get('f', '')) == 'writeEntriesToDiskNoLock' or 'o' in n and f.nodes.get(n['o'], {}).get('f') == self.QUEUE

    def part(self, st):
        return tuple(sorted(map(str, st.rs)))

    def locked(self, st, f, nid):
        self.drop(st, 'section')

    def take(self, st, f, nid, to):
        self.count('taken')
        if self.held not in st.store:
            self.report('%s: unlocked' % f.qn, 'the queue is read without the lock', st, f.loc(nid))
        if self.has(st, 'unwritten'):
            self.report('%s: overwritten' % f.qn, 'entries taken from the queue are replaced before they were written', st, f.loc(nid))
        self.drop(st, 'local')
        self.add(st, 'local', to)
        self.add(st, 'section', 'taken')
        self.add(st, 'unwritten')

    def clear(self, st, f, nid):
        if not self.has(st, 'section', 'taken') or self.held not in st.store:
            self.report('%s: dropped' % f.qn, 'queued entries are dropped', st, f.loc(nid))

    def on_read(self, en, st, f, nid, n, loc):
        if loc == me(self.DONE):
            st.store.pop(me(self.DONE), None)
            st.store[me(self.DONE)] = ('sym', 'finish')
            if self.held in st.store:
                self.add(st, 'section', 'asked')
            else:
                self.add(st, 'late')

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        q = n.get('f', '')
        b = last(q)
        locs = [to_loc(a) for a in args if a != TOP]
        mine = me(self.QUEUE)
        if b == 'operator=' and obj and locs and locs[0] == mine:
            self.take(st, f, nid, obj)
            return [(st, ('addr', obj))]
        if b == 'operator=' and obj == mine:
            self.clear(st, f, nid)
            return [(st, ('addr', obj))]
        if b == 'swap' and (obj == mine or mine in locs):
            o = [x for x in ([obj] if obj else []) + locs if x != mine]
            if o:
                self.take(st, f, nid, o[0])
            return [(st, ZERO)]
        if b in ('move', 'forward') and locs and locs[0] == mine:
            return [(st, ('addr', mine))]
        if obj == mine and b in ('clear', 'erase', 'pop_back', 'resize'):
            self.clear(st, f, nid)
            return [(st, ZERO)]
        if b == 'writeEntriesToDiskNoLock':
            self.count('writes')
            if not locs or not self.has(st, 'local', locs[0]):
                self.report('%s: other' % f.qn, 'what is written is not what was taken from the queue', st, f.loc(nid))
            o = st.copy()
            self.drop(st, 'unwritten')
            self.add(o, 'failed')
            return [(st, ONE), (o, ZERO)]
        if b in ('wait_for', 'wait', 'wait_until'):
            st.store.pop(me(self.DONE), None)
            if self.has(st, 'section', 'taken') or self.has(st, 'section', 'asked'):
                self.drop(st, 'section')
            return [(st, en.fresh(st, fid, nid, 'w'))]
        if b in ('clear', 'erase', 'pop_back', 'resize') and obj and self.has(st, 'local', obj) and self.has(st, 'unwritten'):
            self.report('%s: lost' % f.qn, 'entries taken from the queue are dropped before they were written', st, f.loc(nid))
        return None

    def on_ctor(self, en, st, f, fid, nid, n, args):
        Sys.on_ctor(self, en, st, f, fid, nid, n, args)
        if 'vector' in n.get('rec', '') and args and args[0] != TOP and to_loc(args[0]) == me(self.QUEUE):
            self.add(st, 'bycopy')
        return None

    def on_exit(self, en, st, fn, ret):
        self.count('exits')
        if self.has(st, 'failed'):
            return
        self.count('valid')
        if self.has(st, 'unwritten'):
            self.report('%s: unwritten' % fn.qn, 'the thread ends without having written what it took from the queue', st, fn.loc())
        if not self.has(st, 'section', 'taken') or not self.has(st, 'section', 'asked') or self.has(st, 'late') and not self.has(st, 'section', 'asked'):
            self.report('%s: early end' % fn.qn, 'entries queued before the thread was told to finish may be left behind', st, fn.loc())


class Flush(Sys):
    """all entries given are written"""
    def on_call(self, en, st, f, fid, nid, n, obj, args):
        q = n.get('f', '')
        if q == 'write':
            got = en.rv(st, f, args[2], n['a'][2]) if len(args) > 2 and args[2] != TOP else TOP
            bad = st.copy()
            k = ('sym', 'shortw')
            bad.store[('G', 'shortw')] = k
            bad.assume(cmp_('!=', k, got))
            self.add(st, 'written')
            self.add(bad, 'failed')
            self.count('writes')
            return [(st, got), (bad, k)]
        if last(q) == 'empty' and 'basic_string' in q:
            o = st.copy()
            self.add(o, 'empty')
            return [(st, ZERO), (o, ONE)]
        return None

    def on_exit(self, en, st, fn, ret):
        self.count('exits')
        if ret != TOP and st.truth(ret) is False:
            return
        self.count('valid')
        if self.has(st, 'failed') or not self.has(st, 'written') and not self.has(st, 'empty'):
            self.report('%s: lost' % fn.qn, 'success is reported although entries were not written in full', st, fn.loc())


class Compact(ForEach, Sys):
    """the log is rewritten only when every file in it is complete"""
    over = ('files',)
    en = {}
    K = 24
    QUEUE = TM + 'entries_'

    has, add, drop = Parse.has, Parse.add, Parse.drop

    def part(self, st):
        return tuple(sorted(map(str, st.rs)))

    def is_event(self, f, nid, n):
        return n.get('f', '') in ('ftruncate', 'lseek') or last(n.get('f', '')) in ('parseAndMatch', 'parseVerifyAndFix')

    def should_inline(self, k):
        f = self.prog.F[k]
        return f.cls == 'TransferLogManager' and not f.name.startswith(('add', 'parse', 'write', 'get', 'fsync', 'shutdown', 'close'))

    def container(self, st, obj):
        if obj and obj[0] in ('L', 'P') and obj == st.store.get(('G', 'files')):
            return 'files'
        return None

    def elem_start(self, en, st, f, nid, m):
        self.drop(st, 'chunks')
        self.drop(st, 'size')
        self.drop(st, 'created')
        self.drop(st, 'block')

    def elem_end(self, en, st, f, nid, m):
        if self.has(st, 'cut'):
            if not self.has(st, 'created', 1) or not self.has(st, 'block', 1):
                self.add(st, 'unwritten')
        elif not self.has(st, 'chunks', 'one') or not self.has(st, 'size', 'full'):
            self.add(st, 'partial')

    def loop_end(self, en, st, f, nid, m):
        self.add(st, 'rewritten' if self.has(st, 'cut') else 'checked')

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        q = n.get('f', '')
        b = last(q)
        if b in ('parseAndMatch', 'parseVerifyAndFix'):
            out = args[-1]
            l = to_loc(out) if out != TOP else None
            st.store[('G', 'files')] = l
            o = st.copy()
            self.add(st, 'parsed')
            bad = ('sym', 'parsecode')
            o.store[('G', 'pc')] = bad
            o.assume(cmp_('!=', bad, const(self.en['OK'])))
            return [(st, const(self.en['OK'])), (o, bad)]
        if b == 'shutdownThread' or b == 'join':
            self.add(st, 'stopped')
            return [(st, ZERO)]
        if b == 'size' and obj and 'Interval' in q:
            o = st.copy()
            self.add(st, 'chunks', 'one')
            v = ('sym', 'nchunks')
            o.store[('G', 'nchunks')] = v
            o.assume(cmp_('>=', v, ZERO))
            o.assume(cmp_('!=', v, ONE))
            return [(st, ONE), (o, v)]
        if q == 'FileChunksInfo::getTotalChunkSize':
            return [(st, self.total(st))]
        if q == 'FileChunksInfo::getFileSize':
            v = ('sym', 'filesize')
            st.store[('G', 'filesize')] = v
            return [(st, v)]
        if q == 'FileChunksInfo::getSeqId':
            v = ('sym', 'seqid')
            st.store[('G', 'seqid')] = v
            return [(st, v)]
        if q in ('ftruncate', 'ftruncate64'):
            self.count('cuts')
            for ok, key, why in ((self.has(st, 'stopped'), 'running', 'while the writer thread may still append to it'),
                                 (self.has(st, 'parsed'), 'unparsed', 'although it was not found valid'),
                                 (self.has(st, 'checked') and not self.has(st, 'partial'), 'incomplete', 'although a file in it may be incomplete')):
                if not ok:
                    self.report('%s: %s' % (f.qn, key), 'the log is emptied ' + why, st, f.loc(nid))
            bad = st.copy()
            self.add(st, 'cut')
            self.add(bad, 'nocut')
            return [(st, ZERO), (bad, const(-1))]
        if q in ('lseek', 'lseek64'):
            good = len(args) > 2 and args[1] == ZERO and args[2] == ZERO
            bad = st.copy()
            self.drop(st, 'seek')
            if good:
                self.add(st, 'seek', self.has(st, 'cut'))
            self.add(bad, 'noseek')
            return [(st, ZERO), (bad, const(-1))]
        if b == 'writeLogHeader':
            if not self.has(st, 'cut') or not self.has(st, 'seek', True) and not self.has(st, 'seek', False):
                self.report('%s: header' % f.qn, 'the new header is not written to the start of the emptied log', st, f.loc(nid))
            self.add(st, 'header')
            return [(st, ZERO)]
        if b in ('addFileCreationEntry', 'addBlockWriteEntry'):
            vals = [en.rv(st, f, a, x) if a != TOP and a[0] != 'addr' else a for a, x in zip(args, n['a'])]
            seq, size = ('sym', 'seqid'), ('sym', 'filesize')
            want = (seq, size) if b[3] == 'F' else (seq, ZERO, size)
            if tuple(vals[-len(want):]) != want:
                self.report('%s: %s' % (f.qn, b), 'the compacted log says something else about a file than the parsed one', st, f.loc(nid))
            if not self.has(st, 'header') or not self.has(st, 'cut'):
                self.report('%s: before header' % f.qn, 'files are entered before the new header', st, f.loc(nid))
            if b[3] == 'B' and not self.has(st, 'created', 1):
                self.report('%s: order' % f.qn, 'blocks are entered before their file', st, f.loc(nid))
            self.add(st, 'created' if b[3] == 'F' else 'block', 1)
            return [(st, ZERO)]
        if b == 'writeEntriesToDiskNoLock':
            o = st.copy()
            if not self.has(st, 'rewritten') or not self.has(st, 'took'):
                self.report('%s: early' % f.qn, 'the compacted log is written before it is complete', st, f.loc(nid))
            self.add(st, 'written')
            self.add(o, 'written')
            self.count('rewrites')
            return [(st, ONE), (o, ZERO)]
        if b in ('operator=', 'swap'):
            if me(self.QUEUE) in [to_loc(a) for a in args if a != TOP] + [obj]:
                self.add(st, 'took')
        return ForEach.on_call(self, en, st, f, fid, nid, n, obj, args)

    def total(self, st):
        v = ('sym', 'total')
        st.store[('G', 'total')] = v
        return v

    def on_branch(self, en, st, f, b, cond, took):
        if st.truth(cmp_('==', ('sym', 'total'), ('sym', 'filesize'))) is True:
            self.add(st, 'size', 'full')
        return True

    def on_exit(self, en, st, fn, ret):
        self.count('exits')
        if self.has(st, 'cut') and not self.has(st, 'noseek'):
            if not self.has(st, 'written') or self.has(st, 'unwritten'):
                self.report('%s: lost' % fn.qn, 'the log was emptied but not every file was entered again', st, fn.loc())


class Life(Facts):
    """end of a session"""
    en = {}
    ending = True
    MGR = ('getResumptionStatus', 'writeLogHeader', 'compactLog', 'closeLog', 'renameBuggyLog', 'unlink', 'invalidateDirectory')

    def should_inline(self, k):
        return self.prog.F[k].cls == 'Receiver'

    def is_event(self, f, nid, n):
        return n.get('f', '').startswith(TM)

    def part(self, st):
        return tuple(sorted(map(str, st.rs)))

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        q = n.get('f', '')
        b = last(q)
        if not q.startswith(TM):
            return None
        good = flag(st, ('sym', 'success'))
        if b == 'getResumptionStatus':
            v = ('sym', 'resumption')
            st.store[('G', 'resumption')] = v
            if self.has(st, 'invalidated'):
                return [(st, const(self.en['INCONSISTENT_DIRECTORY']))]
            return [(st, v)]
        if b in ('compactLog', 'renameBuggyLog', 'unlink'):
            self.count('acts')
            if good is not True:
                self.report('%s: %s after failure' % (f.qn, b), '%s although the transfer failed' % b, st, f.loc(nid))
            if b != 'compactLog' and not self.has(st, 'closed') or b == 'compactLog' and self.has(st, 'closed'):
                self.report('%s: %s order' % (f.qn, b), '%s %s the log is closed' % (b, 'after' if b == 'compactLog' else 'before'), st, f.loc(nid))
            if b in ('unlink', 'compactLog'):
                keep = self.opt(st, 'keep_transfer_log')
                if b == 'unlink' and keep is not False:
                    self.report('%s: unlink kept' % f.qn, 'the log is removed although it is to be kept', st, f.loc(nid))
            if b == 'renameBuggyLog' and self.status(st, 'INVALID_LOG') is not True:
                self.report('%s: rename' % f.qn, 'a log that is not invalid is moved away', st, f.loc(nid))
        if b == 'writeLogHeader' and self.ending:
            self.count('acts')
            if good is not True or self.has(st, 'closed'):
                self.report('%s: header' % f.qn, 'the directory is declared valid although the transfer failed', st, f.loc(nid))
        if b == 'closeLog':
            self.add(st, 'closed')
            self.count('closes')
        if b in self.MGR:
            self.add(st, 'did', b)
            return [(st, ZERO)]
        return None

    def status(self, st, name):
        return st.truth(cmp_('==', ('sym', 'resumption'), const(self.en[name])))

    def opt(self, st, name):
        for l, v in st.store.items():
            if l[0] == 'F' and l[2] == 'WdtOptions::' + name:
                return flag(st, v)
        return flag(st, st.store.get(('G', 'opt:' + name)))

    def on_read(self, en, st, f, nid, n, loc):
        if loc[0] == 'F' and loc[2].startswith('WdtOptions::'):
            st.store[('G', 'opt:' + last(loc[2]))] = st.read(loc)

    def on_exit(self, en, st, fn, ret):
        self.count('exits')
        if self.opt(st, 'enable_download_resumption') is False:
            return
        if not self.has(st, 'closed'):
            self.report('%s: open' % fn.qn, 'the log is left open at the end of a session', st, fn.loc())
        if flag(st, ('sym', 'success')) is True:
            self.count('valid')
            if self.opt(st, 'keep_transfer_log') is not True and not self.has(st, 'did', 'unlink'):
                self.report('%s: left' % fn.qn, 'the log of a complete transfer is left behind although it is not to be kept', st, fn.loc())
            if self.status(st, 'INVALID_LOG') is not False and not self.has(st, 'did', 'renameBuggyLog'):
                self.report('%s: still invalid' % fn.qn, 'an invalid log stays in place after a complete transfer', st, fn.loc())


class Start(Life):
    """start of a session"""
    ending = False

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        q = n.get('f', '')
        b = last(q)
        if q.startswith(TM) and b == 'invalidateDirectory':
            self.count('acts')
            if self.has(st, 'did', 'writeLogHeader'):
                self.report('%s: order' % f.qn, 'the directory is declared inconsistent only after the header', st, f.loc(nid))
            self.add(st, 'invalidated')
        if q.startswith(TM) and b == 'writeLogHeader':
            self.count('acts')
            res, blk = flag(st, ('sym', 'resuming')), flag(st, ('sym', 'blockmode'))
            tree = self.opt(st, 'resume_using_dir_tree')
            if not self.has(st, 'invalidated') and (res is not True or tree is not False and blk is not False):
                self.report('%s: stale entries' % f.qn, 'a header is written on top of entries that do not hold for this sender', st, f.loc(nid))
            if tree is not False and (self.has(st, 'invalidated') or self.status(st, 'INCONSISTENT_DIRECTORY') is not False):
                self.report('%s: declared valid' % f.qn, 'a directory resumed by its tree is declared valid although it is inconsistent', st, f.loc(nid))
        return Life.on_call(self, en, st, f, fid, nid, n, obj, args)

    def on_exit(self, en, st, fn, ret):
        self.count('exits')
        if self.opt(st, 'enable_download_resumption') is False:
            return
        self.count('valid')
        if self.opt(st, 'resume_using_dir_tree') is False and not self.has(st, 'did', 'writeLogHeader'):
            self.report('%s: no header' % fn.qn, 'a session starts without a header in the log', st, fn.loc())


class Open(Sys):
    """the log is used only under its file lock"""
    en = {}

    def should_inline(self, k):
        f = self.prog.F[k]
        return f.cls == 'TransferLogManager' and f.name not in ('getFullPath', 'checkLog')

    def is_event(self, f, nid, n):
        return n.get('f', '') in ('flock', 'open', 'close')

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        q = n.get('f', '')
        if q in ('open', 'open64'):
            self.count('opens')
            bad = st.copy()
            v = en.fresh(st, fid, nid, 'fd')
            st.assume(cmp_('>=', v, ZERO))
            return [(st, v), (bad, const(-1))]
        if q == 'flock':
            bad = st.copy()
            v = st.read(me(TM + 'fd_'))
            how = args[1][1] if args[1] != TOP and args[1][0] == 'c' else 0
            if args[0] != TOP and en.rv(st, f, args[0], n['a'][0]) == v and how & 2:
                st.store[('G', 'lockedfd')] = v
            return [(st, ZERO), (bad, const(-1))]
        if q == 'close':
            return [(st, ZERO), (st.copy(), const(-1))]
        if last(q) == 'checkLog':
            return [(st, ZERO)]
        return None

    def on_exit(self, en, st, fn, ret):
        self.count('exits')
        v = st.read(me(TM + 'fd_'))
        if ret == TOP or st.truth(cmp_('==', ret, const(self.en['OK']))) is not False:
            self.count('valid')
            if v == TOP or st.truth(cmp_('>=', v, ZERO)) is not True or st.store.get(('G', 'lockedfd')) != v:
                self.report('%s: no lock' % fn.qn, 'the log counts as open although its file lock is not held', st, fn.loc())
        elif v == TOP or st.truth(cmp_('<', v, ZERO)) is not True:
            self.report('%s: left open' % fn.qn, 'the log is left open although it cannot be used', st, fn.loc())


def operands(P, f):
    """the encoder called and the parameters handed to it"""
    for nid, n in f.nodes.items():
        q = n.get('f', '')
        if n['k'] == 'call' and q.startswith('LogEncoderDecoder::encode'):
            names = []
            for a in n['a'][2:]:
                x = f.nodes.get(a, {})
                while x and x['k'] not in ('var', 'ref', 'decl') and x.get('e'):
                    x = f.nodes.get(x['e'], {})
                p = next((p['n'] for p in f.params if p['d'] == x.get('d')), None)
                names.append(p)
            return last(q), names
    return None, []


def run(P, c):
    en = P.enum('ErrorCode')
    ver = P.globals.get('::' + TM + 'WLOG_VERSION')
    c.need(ver and ver.get('cv') is not None, 'log version not found')

    def go(r, f, setup=None, floor=('exits',)):
        c.explore(r, f.key, setup=setup)
        for x in floor:
            c.need(r.stats.get(x) or r.viol, 'no %s in %s' % (x, f.qn))
        c.oblige('%s: %s' % (f.qn, type(r).__doc__ or ''), not r.viol)
        c.absorb(r, '')
        for k, v in r.stats.items():
            c.count(k, v)

    # -- the parser ----------------------------------------------------
    fs = [f for f in P.F.values() if f.cls == 'LogParser' and f.name.startswith('process')]
    c.floor('entry_functions', len(fs), 6)
    for f in sorted(fs, key=lambda f: f.qn):
        r = Entry(P)
        r.en, r.version = en, ver['cv']

        def s(st, f, fid):
            st.store[('G', 'disk')] = DISK
            st.assume(cmp_('>=', DISK, ZERO))
        go(r, f, s, ('exits', 'accepted', 'decodes') + (('headers',) if f.name == 'processHeaderEntry' else ()))
    c.need(c.counts.get('taken_over', 0) >= 6 or c.viols, 'no entry is taken over')

    # -- the log as a whole ------------------------------------------------
    types = dict(zip(('processHeaderEntry', 'processFileCreationEntry', 'processBlockWriteEntry', 'processFileInvalidationEntry',
                      'processDirectoryInvalidationEntry', 'processFileResizeEntry'),
                     (P.enum(TM + 'EntryType')[x] for x in ('HEADER', 'FILE_CREATION', 'BLOCK_WRITE', 'FILE_INVALIDATION', 'DIRECTORY_INVALIDATION', 'FILE_RESIZE'))))
    pl = P.fn(LP + 'parseLog')
    for only in (0, 1):
        r = Parse(P)
        r.en, r.types = en, types

        def s(st, f, fid):
            st.store[me(LP + 'parseOnly_')] = const(only)
            if only:
                st.store[('G', ('size', BAD))] = ('sym', ('size', BAD))
                st.assume(cmp_('==', ('sym', ('size', BAD)), ZERO))
        go(r, pl, s, ('exits', 'valid', 'reads', 'dispatches', 'results'))
    r = Invalidate(P)
    w = P.fn(LP + 'writeFileInvalidationEntries')

    def s(st, f, fid):
        for p in f.params:
            if 'set' in p['t']:
                v = st.store.get(('L', fid, p['d']))
                if v:
                    st.store[('G', 'ids')] = v[1] if v[0] == 'addr' else v
    go(r, w, s, ('exits', 'valid', 'writes'))

    # -- the writers -----------------------------------------------------
    fd, head = me(Writer.FD), me(Writer.HEAD)
    for name in ('writeLogHeader', 'invalidateDirectory', 'closeLog', 'shutdownThread', 'addFileCreationEntry', 'addBlockWriteEntry', 'addFileResizeEntry',
                 'addFileInvalidationEntry'):
        f = P.fn(TM + name)
        for was in ((0, 1) if name != 'shutdownThread' else (1,)):
            r = Writer(P)
            r.en = en

            def s(st, f, fid):
                st.store[fd], st.store[head] = ('sym', 'fd'), ('sym', 'head')
                st.store[('G', 'fd0')], st.store[('G', 'head0')] = ('sym', 'fd'), ('sym', 'head')
                st.assume(cmp_('>=' if was else '<', ('sym', 'fd'), ZERO))
                if was:
                    r.add(st, 'wasopen')
            go(r, f, s, ('exits',) + (('valid',) if was else ()))
            if was and name.startswith('add'):
                enc, args = operands(P, f)
                c.check(enc == 'encode' + name[3:] and args == [p['n'] for p in f.params], '%s: fields' % f.qn,
                        'the entry is not made from the values it is about, in order', f.loc())
    r = Drain(P)
    th = P.fn(TM + 'threadProcWriteEntriesToDisk')
    go(r, th, None, ('taken', 'writes'))
    c.check(r.stats.get('valid') or r.viol, '%s: no end' % th.qn, 'the writer thread never ends although it is told to', th.loc())
    r = Flush(P)
    go(r, P.fn(TM + 'writeEntriesToDiskNoLock'), None, ('exits', 'valid', 'writes'))
    r = Compact(P)
    r.en = en
    go(r, P.fn(TM + 'compactLog'), None, ('exits', 'cuts', 'rewrites'))
    r = Open(P)
    r.en = en

    def s(st, f, fid):
        st.store[fd] = const(-1)
    go(r, P.fn(TM + 'openLog'), s, ('exits', 'valid', 'opens'))

    # -- the session -------------------------------------------------------
    for cls, name, syms in ((Life, 'fixAndCloseTransferLog', ('success',)), (Start, 'addTransferLogHeader', ('blockmode', 'resuming'))):
        f = P.fn('Receiver::' + name)
        r = cls(P)
        r.en = en
        c.need(len(f.params) == len(syms), 'parameters of %s' % f.qn)

        def s(st, f, fid):
            for p, x in zip(f.params, syms):
                st.store[('L', fid, p['d'])] = ('sym', x)
                st.store[('G', x)] = ('sym', x)
        go(r, f, s, ('exits', 'valid', 'acts'))
